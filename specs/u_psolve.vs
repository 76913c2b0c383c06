@include lib.vs
@import m_gcdx.vs
@import m_modinv.vs
@import m_modular0.vs
@import m_modular.vs
@import m_padic.vs
@include m_psolve.vs
fn main() {}
}
