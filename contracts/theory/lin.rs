// One-dimensional boxes: the empty interval, or a pair of bounds (possibly NaN).
pub trait HasEnvelope {
    spec fn env(&self) -> Envelope;
    fn envelope(&self) -> (ret: Envelope) ensures ret == self.env();
}
impl Position { pub open spec fn vx(self) -> Ext { self.x.v() } }
pub open spec fn mkpos(x: Ext) -> Position { Position { x: mkc(x) } }
pub open spec fn into_pos<P: Into<Position>>(p: P) -> Position { IntoSpec::<Position>::into_spec(p) }
pub open spec fn pos_min(a: Position, b: Position) -> Position { mkpos(e_min(a.vx(), b.vx())) }
pub open spec fn pos_max(a: Position, b: Position) -> Position { mkpos(e_max(a.vx(), b.vx())) }
pub open spec fn env_new(a: Position, b: Position) -> Envelope { Envelope::Bounds { min: pos_min(a, b), max: pos_max(a, b) } }
pub open spec fn env_merge(a: Envelope, b: Envelope) -> Envelope {
    match (a, b) {
        (Envelope::Empty, _) => b,
        (_, Envelope::Empty) => a,
        (Envelope::Bounds { min: m1, max: x1 }, Envelope::Bounds { min: m2, max: x2 }) => Envelope::Bounds { min: pos_min(m1, m2), max: pos_max(x1, x2) },
    }
}
pub open spec fn env_fold(s: Seq<Envelope>) -> Envelope
    decreases s.len()
{ if s.len() == 0 { Envelope::Empty } else { env_merge(env_fold(s.drop_last()), s.last()) } }
pub open spec fn env_contains(a: Envelope, b: Envelope) -> bool {
    match (a, b) {
        (Envelope::Bounds { min: m1, max: x1 }, Envelope::Bounds { min: m2, max: x2 }) => e_le(m1.vx(), m2.vx()) && e_le(x2.vx(), x1.vx()),
        _ => false,
    }
}
pub open spec fn env_intersects(a: Envelope, b: Envelope) -> bool {
    match (a, b) {
        (Envelope::Bounds { min: m1, max: x1 }, Envelope::Bounds { min: m2, max: x2 }) => e_le(m1.vx(), x2.vx()) && e_le(m2.vx(), x1.vx()),
        _ => false,
    }
}
pub open spec fn envs<E: HasEnvelope>(s: Seq<E>) -> Seq<Envelope> { Seq::new(s.len(), |i: int| s[i].env()) }
pub open spec fn envs_ref<E: HasEnvelope>(s: Seq<&E>) -> Seq<Envelope> { Seq::new(s.len(), |i: int| s[i].env()) }
pub open spec fn seq_env<E: HasEnvelope>(s: Seq<E>) -> Envelope { env_fold(envs(s)) }
pub broadcast proof fn lemma_envs_ref<E: HasEnvelope>(s: Seq<&E>, t: Seq<E>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == t[i]
    ensures env_fold(#[trigger] envs_ref(s)) == #[trigger] seq_env(t)
{ assert(envs_ref(s) =~= envs(t)); }
