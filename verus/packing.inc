/// the candidates a flush has already put into packets
pub open spec fn used(cur: CandidateCursor, c: Seq<SendCandidate>, k: int) -> bool { k < cur.index || (k < cur.single_index && single(c[k])) }
pub open spec fn chosen(c: Seq<SendCandidate>, sel: Seq<int>) -> Seq<SendCandidate> { sel.map_values(|k: int| c[k]) }
pub open spec fn metas(l: Seq<SendCandidate>) -> Seq<MessageMetadata> { l.map_values(|x: SendCandidate| meta(x)) }
pub open spec fn increasing(sel: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < sel.len() ==> #[trigger] sel[i] < #[trigger] sel[j] }
/// the candidates of this flush that went into a packet: some, in order, each for the first time, none left behind of its kind
pub open spec fn taken(c: Seq<SendCandidate>, a: CandidateCursor, b: CandidateCursor, sel: Seq<int>) -> bool {
    sel.len() > 0 && increasing(sel) && (forall|k: int| sel.contains(k) ==> 0 <= k < c.len() && !used(a, c, k)) && (forall|k: int| 0 <= k < c.len() ==> (#[trigger] used(b, c, k) <==> used(a, c, k) || sel.contains(k)))
    && forall|k: int, x: int| 0 <= k < x && #[trigger] sel.contains(x) && single(#[trigger] c[k]) == single(c[x]) ==> used(b, c, k)
}
/// singles are taken ahead of their turn only behind a fragment of the same priority
pub open spec fn level(c: Seq<SendCandidate>, a: CandidateCursor, b: CandidateCursor) -> bool {
    a.index < b.index <= c.len() && a.single_index <= b.single_index && (b.single_index <= a.single_index || b.single_index <= b.index || (b.single_index <= c.len() && rank(c[b.single_index - 1].effective_priority) == rank(c[b.index - 1].effective_priority)))
}
