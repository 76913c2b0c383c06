@include lib.vs
@import m_matrices.vs
@import m_span.vs
@import m_gcdx.vs
@import m_basis.vs
@import m_ech.vs
@import m_extend.vs
@import m_rank.vs
@import m_form.vs
@import m_latred.vs
@include m_latmin.vs
fn main() {}
}
