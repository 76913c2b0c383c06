@# graphs as their readers see them: the contracts that u_graph proves of the methods of Graph, which change nothing but caches
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(CS)]
pub struct Graph<T, CS> { p: PhantomData<(T, CS)> }
pub broadcast axiom fn axiom_graph<CS>(g: &Graph<Lab, CS>) ensures esok(#[trigger] g.es());
impl<CS> Graph<Lab, CS> {
    pub uninterp spec fn es(&self) -> Seq<EV>;
    #[verifier::external_body] pub fn new(raw_edges: &Vec<Edge<Lab, CS>>) -> (r: Self) ensures forall|x: EV| #[trigger] has(r.es(), x) <==> has(canons(keys(raw_edges@)), x) { unimplemented!() }
    #[verifier::external_body] pub fn dim() -> (r: usize) ensures r == ldim() { unimplemented!() }
    #[verifier::external_body] pub fn vertices(&self) -> (r: Vec<u32>) ensures isverts(r@, self.es()) { unimplemented!() }
    #[verifier::external_body] pub fn incidences(&self, v: &u32) -> (r: Vec<Edge<Lab, CS>>) requires end_of(self.es(), self.es().len() as int, *v) ensures keys(r@) == incs(self.es(), *v) { unimplemented!() }
}
