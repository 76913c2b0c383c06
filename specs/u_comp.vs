@include lib.vs
@import m_matrices.vs
@import m_span.vs
@import m_gcdx.vs
@import m_basis.vs
@import m_ech.vs
@import m_extend.vs
@import m_rank.vs
@include m_label0.vs
@include m_coll.vs
@include m_edge.vs
@include m_graphref.vs
@include m_net.vs
@import m_trav.vs
@import m_cyc.vs
@include m_comp.vs
fn main() {}
}
