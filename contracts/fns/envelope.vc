@@fn planar Envelope as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { *self }
@@fn planar Envelope::empty
    ensures ret == Envelope::Empty,
@@fn planar Envelope::new
    ensures ret == env_new(pos1, pos2),
@@fn planar Envelope::is_empty
    ensures ret == (*self is Empty),
@@fn planar Envelope::of
    ensures ret == env_fold(envs_ref(objs@)),
@@inv 1
    __acc1 == env_fold(envs_ref(objs@.take(__i1 as int))),
@@at bot_1
    proof { assert(envs_ref(objs@.take(__i1 as int)).drop_last() =~= envs_ref(objs@.take(__i1 - 1))); }
@@at after_1
    proof { assert(objs@.take(__i1 as int) =~= objs@); }
@@fn planar Envelope::validate
    ensures ret is Ok <==> (match *self {
        Envelope::Empty => true,
        Envelope::Bounds { min, max } => pos_finite(min) && pos_finite(max) && e_le(min.vx(), max.vx()) && e_le(min.vy(), max.vy()),
    }),
@@fn planar Envelope::min
    ensures ret == (match *self { Envelope::Empty => None::<Position>, Envelope::Bounds { min, max } => Some(min) }),
@@fn planar Envelope::max
    ensures ret == (match *self { Envelope::Empty => None::<Position>, Envelope::Bounds { min, max } => Some(max) }),
@@fn planar Envelope::contains
    ensures ret == env_contains(*self, other.env()),
@@fn planar Envelope::intersects
    ensures ret == env_intersects(*self, other),
@@fn planar Envelope::merge
    ensures ret == env_merge(*self, other.env()),
@@fn planar Envelope::buffer
    ensures ret == env_buffer(*self, distance.v()),
@@fn planar Envelope::expand
    ensures *final(self) == env_merge(*old(self), other.env()),
@@fn planar Envelope::center
    ensures ret == env_center(*self),
