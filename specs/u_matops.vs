@include lib.vs
@import m_matrices.vs
@include m_matops.vs
fn main() {}
}
