# C10: merging runs preserves the text and every other child
#
# the children that are not runs, and the number of runs
//@ fold nonRuns(cs []interface{}) []interface{} = cond(is(e, "*Run"), seq("interface{}"), seq("interface{}", e))
//@ fold noText(cs []interface{}) []interface{} = cond(is(e, "*Text"), seq("interface{}"), seq("interface{}", e))
//@ fold runText10(cs []interface{}) string = cond(is(e, "*Text"), as(e, "*Text").Text, "")
//@ def ownTexts(cs []interface{}) bool = forall(j, 0, len(cs), imp(is(cs[j], "*Text"), as(cs[j], "*Text") != nil && fresh(as(cs[j], "*Text"))))

//@ func (p *Paragraph) MergeText(canmerge) (np) [C10]
//@ requires p != nil && canmerge != nil
//@ noniltree
//@ modifies nothing
//@ invariant {Paragraph.Children} nonRuns(acc) == nonRuns(seq, upto(k))
//@ invariant {Paragraph.Children} len(acc) <= k
# a run that is being built has texts of its own
//@ invariant {Run.Children} ownTexts(acc)
//@ invariant imp(ptr != nil, fresh(ptr) && ownTexts(ptr.Children))
//@ ensures except(np, *p, "Children")
//@ ensures nonRuns(np.Children) == nonRuns(p.Children)
//@ ensures len(np.Children) <= len(p.Children)
