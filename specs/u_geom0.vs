@include lib.vs
@import m_matrices.vs
@import m_matops.vs
@import m_span.vs
@import m_gcdx.vs
@import m_basis.vs
@import m_ech.vs
@import m_extend.vs
@import m_rank.vs
@import m_det0.vs
@import m_extdet.vs
@import m_det.vs
@import m_solve0.vs
@import m_solve.vs
@include m_geom0.vs
fn main() {}
}
