# C09: added text keeps every character, line break and tab
#
# sepJoin: the pieces of a string joined again (strings.Split is trusted to be its inverse)
//@ fold sepJoin(ps []string, sep string) string = cond(i > 0, sep, "") + e
//@ fold spell(cs []interface{}) string = cond(is(e, "*Text"), as(e, "*Text").Text, cond(is(e, "*Tab"), "\t", cond(is(e, "*BarterRabbet"), "\n", "?")))
//@ fold badPiece(cs []interface{}) bool = !(is(e, "*Text") && as(e, "*Text").Text != "" && !mentions(as(e, "*Text").Text, "\t") && !mentions(as(e, "*Text").Text, "\n") || is(e, "*Tab") || is(e, "*BarterRabbet"))
//@ def plainRun(run *Run) bool = run != nil && run.RunProperties != nil && *run.RunProperties == RunProperties{} && run.InstrText == ""

//@ func (p *Paragraph) AddTab() (run) [C09]
//@ requires p != nil
//@ modifies p.Children
//@ ensures plainRun(run) && fresh(run) && p.Children == cat(old(p.Children), seq("interface{}", box(run)))
//@ ensures len(run.Children) == 1 && is(run.Children[0], "*Tab") && spell(run.Children) == "\t"
//@ ensures !badPiece(run.Children)

//@ func (p *Paragraph) AddText(text) (run) [C09]
//@ requires p != nil
//@ modifies p.Children
//@ invariant {[]interface{}} spell(acc) == spell(acc0) + sepJoin(seq, upto(k), "\t")
//@ invariant {[]interface{}} spell(acc) == spell(acc0) + sepJoin(seq, upto(k), "\n")
//@ invariant {[]interface{}} !badPiece(acc)
//@ ensures plainRun(run) && fresh(run) && p.Children == cat(old(p.Children), seq("interface{}", box(run)))
//@ ensures spell(run.Children) == text
//@ ensures !badPiece(run.Children)
