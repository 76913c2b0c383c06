@include lib.vs
@import m_matrices.vs
@import m_span.vs
@import m_gcdx.vs
@import m_basis.vs
@import m_ech.vs
@import m_det0.vs
@import m_extdet.vs
@include m_det.vs
fn main() {}
}
