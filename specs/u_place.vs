@include lib.vs
@import m_gcdx.vs
@import m_modinv.vs
@import m_modular0.vs
@import m_modular.vs
@import m_padic.vs
@import m_psolve.vs
@include m_label0.vs
@include m_coll.vs
@include m_edge.vs
@import m_net.vs
@include m_pt.vs
@import m_graph.vs
@import m_bary.vs
@include m_place.vs
fn main() {}
}
