@include lib.vs
@import m_matrices.vs
@import m_span.vs
@import m_gcdx.vs
@include m_basis.vs
fn main() {}
}
