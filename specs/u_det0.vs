@include lib.vs
@import m_matrices.vs
@import m_span.vs
@import m_gcdx.vs
@import m_basis.vs
@include m_det0.vs
fn main() {}
}
