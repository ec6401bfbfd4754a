// Boxes as sets of bounds. A box is Empty, or has four bounds (values, possibly NaN).
pub trait HasEnvelope {
    spec fn env(&self) -> Envelope;
    fn envelope(&self) -> (ret: Envelope) ensures ret == self.env();
}

impl Position {
    pub open spec fn vx(self) -> Ext { self.x.v() }
    pub open spec fn vy(self) -> Ext { self.y.v() }
}
pub open spec fn mkpos(x: Ext, y: Ext) -> Position { Position { x: mkc(x), y: mkc(y) } }
pub open spec fn pos_min(a: Position, b: Position) -> Position { mkpos(e_min(a.vx(), b.vx()), e_min(a.vy(), b.vy())) }
pub open spec fn pos_max(a: Position, b: Position) -> Position { mkpos(e_max(a.vx(), b.vx()), e_max(a.vy(), b.vy())) }
pub open spec fn pos_finite(p: Position) -> bool { p.vx() is Fin && p.vy() is Fin }

pub open spec fn env_new(a: Position, b: Position) -> Envelope { Envelope::Bounds { min: pos_min(a, b), max: pos_max(a, b) } }
pub open spec fn env_pos(p: Position) -> Envelope { env_new(p, p) }
pub open spec fn env_merge(a: Envelope, b: Envelope) -> Envelope {
    match (a, b) {
        (Envelope::Empty, _) => b,
        (_, Envelope::Empty) => a,
        (Envelope::Bounds { min: m1, max: x1 }, Envelope::Bounds { min: m2, max: x2 }) => Envelope::Bounds { min: pos_min(m1, m2), max: pos_max(x1, x2) },
    }
}
pub open spec fn env_fold(s: Seq<Envelope>) -> Envelope
    decreases s.len()
{
    if s.len() == 0 { Envelope::Empty } else { env_merge(env_fold(s.drop_last()), s.last()) }
}
pub open spec fn env_contains(a: Envelope, b: Envelope) -> bool {
    match (a, b) {
        (Envelope::Bounds { min: m1, max: x1 }, Envelope::Bounds { min: m2, max: x2 }) =>
            e_le(m1.vx(), m2.vx()) && e_le(x2.vx(), x1.vx()) && e_le(m1.vy(), m2.vy()) && e_le(x2.vy(), x1.vy()),
        _ => false,
    }
}
pub open spec fn env_intersects(a: Envelope, b: Envelope) -> bool {
    match (a, b) {
        (Envelope::Bounds { min: m1, max: x1 }, Envelope::Bounds { min: m2, max: x2 }) =>
            e_le(m1.vx(), x2.vx()) && e_le(m2.vx(), x1.vx()) && e_le(m1.vy(), x2.vy()) && e_le(m2.vy(), x1.vy()),
        _ => false,
    }
}
pub open spec fn envs<E: HasEnvelope>(s: Seq<E>) -> Seq<Envelope> { Seq::new(s.len(), |i: int| s[i].env()) }
pub open spec fn envs_ref<E: HasEnvelope>(s: Seq<&E>) -> Seq<Envelope> { Seq::new(s.len(), |i: int| s[i].env()) }
pub open spec fn seq_env<E: HasEnvelope>(s: Seq<E>) -> Envelope { env_fold(envs(s)) }
/// Iterating by reference does not change the boxes.
pub broadcast proof fn lemma_envs_ref<E: HasEnvelope>(s: Seq<&E>, t: Seq<E>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == t[i]
    ensures env_fold(#[trigger] envs_ref(s)) == #[trigger] seq_env(t)
{ assert(envs_ref(s) =~= envs(t)); }
pub open spec fn pos_add(a: Position, b: Position) -> Position { mkpos(c_add(a.vx(), b.vx()), c_add(a.vy(), b.vy())) }
pub open spec fn pos_sub(a: Position, b: Position) -> Position { mkpos(c_sub(a.vx(), b.vx()), c_sub(a.vy(), b.vy())) }
pub open spec fn pos_mul(a: Position, k: Ext) -> Position { mkpos(c_mul(a.vx(), k), c_mul(a.vy(), k)) }
pub open spec fn pos_div(a: Position, k: Ext) -> Position { mkpos(c_div(a.vx(), k), c_div(a.vy(), k)) }
pub open spec fn env_buffer(e: Envelope, d: Ext) -> Envelope {
    match e {
        Envelope::Empty => Envelope::Empty,
        Envelope::Bounds { min, max } => Envelope::Bounds { min: mkpos(c_sub(min.vx(), d), c_sub(min.vy(), d)), max: mkpos(c_add(max.vx(), d), c_add(max.vy(), d)) },
    }
}
pub open spec fn env_center(e: Envelope) -> Option<Position> {
    match e {
        Envelope::Empty => None,
        Envelope::Bounds { min, max } => Some(pos_div(pos_add(max, min), c_add(one(), one()))),
    }
}
