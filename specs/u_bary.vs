@include lib.vs
@include m_label0.vs
@include m_coll.vs
@include m_edge.vs
@include m_net.vs
@include m_pt.vs
@include m_bary.vs
fn main() {}
}
