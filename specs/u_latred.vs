@include lib.vs
@import m_form.vs
@include m_latred.vs
fn main() {}
}
