# C20: the ready-made merge rules decide equality of the run properties, by value
#
//@ func MergeAllRuns(r1, r2) (res) [C20]
//@ modifies nothing
//@ ensures res

//@ func MergeSamePropRuns(r1, r2) (res) [C20]
//@ modifies nothing
//@ ensures r1 != nil && r2 != nil ==> (res == sameval(r1.RunProperties, r2.RunProperties))
//@ ensures r1 == nil || r2 == nil ==> !res

# unknown names are a programming error: reflect panics on them
//@ func MergeSamePropRunsOf(name) (res) [C20]
//@ applied r1 *Run, r2 *Run
//@ requires forall(j, 0, len(name), isProp(name[j]))
//@ modifies nothing
//@ invariant forall(j, 0, k, sameval(r1.RunProperties, r2.RunProperties, name[j]))
//@ ensures r1 != nil && r2 != nil && r1.RunProperties != nil && r2.RunProperties != nil && res ==> forall(j, 0, len(name), sameval(r1.RunProperties, r2.RunProperties, name[j]))
//@ ensures r1 != nil && r2 != nil && r1.RunProperties != nil && r2.RunProperties != nil && !res ==> exists(j, 0, len(name), !sameval(r1.RunProperties, r2.RunProperties, name[j]))
//@ ensures r1 != nil && r2 != nil && (r1.RunProperties == nil || r2.RunProperties == nil) ==> (res == (r1.RunProperties == r2.RunProperties))
//@ ensures r1 == nil || r2 == nil ==> !res
//@ def isProp(n string) bool = isfield("RunProperties", n)
