@include lib.vs
@include m_label0.vs
@include m_coll.vs
@include m_edge.vs
@include m_graphref.vs
@include m_net.vs
@include m_trav.vs
fn main() {}
}
