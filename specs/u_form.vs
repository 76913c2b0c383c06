@include lib.vs
@include m_form.vs
fn main() {}
}
