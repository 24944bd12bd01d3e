import Mathlib.Combinatorics.SimpleGraph.Acyclic

/-- Every connected cluster with at least two sites is obtained from a smaller connected
cluster by adding one site: the enumeration "grow every cluster of order n by one adjacent
site" reaches every connected cluster of order n+1. -/
theorem cluster_has_removable_site {V : Type*} [Finite V] [Nontrivial V]
    (G : SimpleGraph V) (h : G.Connected) :
    ∃ v : V, (G.induce {v}ᶜ).Connected :=
  h.exists_connected_induce_compl_singleton_of_finite_nontrivial
