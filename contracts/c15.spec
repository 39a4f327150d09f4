# C15: formatting calls set exactly their own property
#
# props(r): the properties of a run before the call, empty when it has none.
//@ def runProps0(p *RunProperties) RunProperties = cond(p == nil, RunProperties{}, *p)
//@ def paraProps0(p *ParagraphProperties) ParagraphProperties = cond(p == nil, ParagraphProperties{}, *p)

//@ func (r *Run) Color(color) (res) [C15]
//@ requires r != nil
//@ modifies r.RunProperties, r.RunProperties.Color
//@ ensures res == r
//@ ensures r.RunProperties != nil
//@ ensures except(*r.RunProperties, old(runProps0(r.RunProperties)), "Color")
//@ ensures r.RunProperties.Color != nil && *r.RunProperties.Color == Color{Val: color}

//@ func (r *Run) Size(size) (res) [C15]
//@ requires r != nil
//@ modifies r.RunProperties, r.RunProperties.Size
//@ ensures res == r
//@ ensures r.RunProperties != nil
//@ ensures except(*r.RunProperties, old(runProps0(r.RunProperties)), "Size")
//@ ensures r.RunProperties.Size != nil && *r.RunProperties.Size == Size{Val: size}

//@ func (r *Run) SizeCs(size) (res) [C15]
//@ requires r != nil
//@ modifies r.RunProperties, r.RunProperties.SizeCs
//@ ensures res == r
//@ ensures r.RunProperties != nil
//@ ensures except(*r.RunProperties, old(runProps0(r.RunProperties)), "SizeCs")
//@ ensures r.RunProperties.SizeCs != nil && *r.RunProperties.SizeCs == SizeCs{Val: size}

//@ func (r *Run) Shade(val, color, fill) (res) [C15]
//@ requires r != nil
//@ modifies r.RunProperties, r.RunProperties.Shade
//@ ensures res == r
//@ ensures r.RunProperties != nil
//@ ensures except(*r.RunProperties, old(runProps0(r.RunProperties)), "Shade")
//@ ensures r.RunProperties.Shade != nil && *r.RunProperties.Shade == Shade{Val: val, Color: color, Fill: fill}

//@ func (r *Run) Spacing(line) (res) [C15]
//@ requires r != nil
//@ modifies r.RunProperties, r.RunProperties.Spacing
//@ ensures res == r
//@ ensures r.RunProperties != nil
//@ ensures except(*r.RunProperties, old(runProps0(r.RunProperties)), "Spacing")
//@ ensures r.RunProperties.Spacing != nil && *r.RunProperties.Spacing == Spacing{Line: line}

//@ func (r *Run) Bold() (res) [C15]
//@ requires r != nil
//@ modifies r.RunProperties, r.RunProperties.Bold
//@ ensures res == r
//@ ensures r.RunProperties != nil
//@ ensures except(*r.RunProperties, old(runProps0(r.RunProperties)), "Bold")
//@ ensures r.RunProperties.Bold != nil && *r.RunProperties.Bold == Bold{}

//@ func (r *Run) Italic() (res) [C15]
//@ requires r != nil
//@ modifies r.RunProperties, r.RunProperties.Italic
//@ ensures res == r
//@ ensures r.RunProperties != nil
//@ ensures except(*r.RunProperties, old(runProps0(r.RunProperties)), "Italic")
//@ ensures r.RunProperties.Italic != nil && *r.RunProperties.Italic == Italic{}

//@ func (r *Run) Underline(val) (res) [C15]
//@ requires r != nil
//@ modifies r.RunProperties, r.RunProperties.Underline
//@ ensures res == r
//@ ensures r.RunProperties != nil
//@ ensures except(*r.RunProperties, old(runProps0(r.RunProperties)), "Underline")
//@ ensures r.RunProperties.Underline != nil && *r.RunProperties.Underline == Underline{Val: val}

//@ func (r *Run) Highlight(val) (res) [C15]
//@ requires r != nil
//@ modifies r.RunProperties, r.RunProperties.Highlight
//@ ensures res == r
//@ ensures r.RunProperties != nil
//@ ensures except(*r.RunProperties, old(runProps0(r.RunProperties)), "Highlight")
//@ ensures r.RunProperties.Highlight != nil && *r.RunProperties.Highlight == Highlight{Val: val}

//@ func (r *Run) Strike(val) (res) [C15]
//@ requires r != nil
//@ modifies r.RunProperties, r.RunProperties.Strike
//@ ensures res == r
//@ ensures r.RunProperties != nil
//@ ensures except(*r.RunProperties, old(runProps0(r.RunProperties)), "Strike")
//@ ensures r.RunProperties.Strike != nil && *r.RunProperties.Strike == Strike{Val: cond(val, "true", "false")}

//@ func (r *Run) Font(ascii, eastAsia, hansi, hint) (res) [C15]
//@ requires r != nil
//@ modifies r.RunProperties, r.RunProperties.Fonts
//@ ensures res == r
//@ ensures r.RunProperties != nil
//@ ensures except(*r.RunProperties, old(runProps0(r.RunProperties)), "Fonts")
//@ ensures r.RunProperties.Fonts != nil && *r.RunProperties.Fonts == RunFonts{ASCII: ascii, EastAsia: eastAsia, HAnsi: hansi, Hint: hint}

//@ func (r *Run) AddTab() (res) [C15]
//@ requires r != nil
//@ modifies r.Children
//@ ensures res == r
//@ ensures len(r.Children) == len(old(r.Children)) + 1 && r.Children[:len(old(r.Children))] == old(r.Children)
//@ ensures is(r.Children[len(old(r.Children))], "*Tab") && *as(r.Children[len(old(r.Children))], "*Tab") == Tab{}

//@ func (p *Paragraph) Justification(val) (res) [C15]
//@ requires p != nil
//@ modifies p.Properties, p.Properties.Justification
//@ ensures res == p
//@ ensures p.Properties != nil
//@ ensures except(*p.Properties, old(paraProps0(p.Properties)), "Justification")
//@ ensures p.Properties.Justification != nil && *p.Properties.Justification == Justification{Val: val}

//@ func (p *Paragraph) Style(val) (res) [C15]
//@ requires p != nil
//@ modifies p.Properties, p.Properties.Style
//@ ensures res == p
//@ ensures p.Properties != nil
//@ ensures except(*p.Properties, old(paraProps0(p.Properties)), "Style")
//@ ensures p.Properties.Style != nil && *p.Properties.Style == Style{Val: val}

//@ func (p *Paragraph) NumPr(numID, ilvl) (res) [C15]
//@ requires p != nil
//@ modifies p.Properties, p.Properties.NumProperties, p.Properties.RunProperties
//@ ensures res == p
//@ ensures p.Properties != nil
//@ ensures except(*p.Properties, old(paraProps0(p.Properties)), "NumProperties", "RunProperties")
//@ ensures p.Properties.NumProperties != nil && p.Properties.NumProperties.NumID != nil && p.Properties.NumProperties.Ilvl != nil
//@ ensures except(*p.Properties.NumProperties, NumProperties{}, "NumID", "Ilvl")
//@ ensures *p.Properties.NumProperties.NumID == NumID{Val: numID} && *p.Properties.NumProperties.Ilvl == Ilevel{Val: ilvl}
//@ ensures old(paraProps0(p.Properties).RunProperties) != nil ==> p.Properties.RunProperties == old(p.Properties.RunProperties)
//@ ensures old(paraProps0(p.Properties).RunProperties) == nil ==> p.Properties.RunProperties == nil || *p.Properties.RunProperties == RunProperties{}

//@ func (p *Paragraph) NumFont(ascii, eastAsia, hansi, hint) (res) [C15]
//@ requires p != nil
//@ modifies p.Properties, p.Properties.RunProperties, p.Properties.RunProperties.Fonts
//@ ensures res == p
//@ ensures p.Properties != nil && p.Properties.RunProperties != nil
//@ ensures except(*p.Properties, old(paraProps0(p.Properties)), "RunProperties")
//@ ensures except(*p.Properties.RunProperties, old(runProps0(paraProps0(p.Properties).RunProperties)), "Fonts")
//@ ensures p.Properties.RunProperties.Fonts != nil && *p.Properties.RunProperties.Fonts == RunFonts{ASCII: ascii, EastAsia: eastAsia, HAnsi: hansi, Hint: hint}

//@ func (p *Paragraph) NumSize(size) (res) [C15]
//@ requires p != nil
//@ modifies p.Properties, p.Properties.RunProperties, p.Properties.RunProperties.Size
//@ ensures res == p
//@ ensures p.Properties != nil && p.Properties.RunProperties != nil
//@ ensures except(*p.Properties, old(paraProps0(p.Properties)), "RunProperties")
//@ ensures except(*p.Properties.RunProperties, old(runProps0(paraProps0(p.Properties).RunProperties)), "Size")
//@ ensures p.Properties.RunProperties.Size != nil && *p.Properties.RunProperties.Size == Size{Val: size}

//@ func (p *Paragraph) AddPageBreaks() (res) [C15]
//@ requires p != nil
//@ modifies p.Children
//@ ensures p.Children == cat(old(p.Children), seq("interface{}", box(res)))
//@ ensures res != nil && fresh(res) && len(res.Children) == 1 && is(res.Children[0], "*BarterRabbet")
//@ ensures except(*as(res.Children[0], "*BarterRabbet"), BarterRabbet{}, "Type") && as(res.Children[0], "*BarterRabbet").Type == "page"
//@ ensures res.InstrText == "" && (res.RunProperties == nil || *res.RunProperties == RunProperties{})

//@ func (f *Docx) AddParagraph() (res) [C15]
//@ requires f != nil
//@ modifies f.Document.Body.Items
//@ ensures f.Document.Body.Items == cat(old(f.Document.Body.Items), seq("interface{}", box(res)))
//@ ensures res != nil && fresh(res) && except(*res, Paragraph{}, "file", "Children") && len(res.Children) == 0 && res.file == f

//@ func (f *Docx) WithA3Page() (res) [C15]
//@ requires f != nil
//@ modifies f.Document.Body.Items
//@ ensures res == f
//@ ensures len(f.Document.Body.Items) == len(old(f.Document.Body.Items)) + 1 && f.Document.Body.Items[:len(old(f.Document.Body.Items))] == old(f.Document.Body.Items)
//@ ensures is(f.Document.Body.Items[len(old(f.Document.Body.Items))], "*SectPr")
//@ ensures pageOnly(as(f.Document.Body.Items[len(old(f.Document.Body.Items))], "*SectPr"), 16838, 23811)

//@ def pageOnly(s *SectPr, w int, h int) bool = except(*s, SectPr{}, "PgSz") && s.PgSz != nil && *s.PgSz == PgSz{W: w, H: h}

//@ func (f *Docx) WithA4Page() (res) [C15]
//@ requires f != nil
//@ modifies f.Document.Body.Items
//@ ensures res == f
//@ ensures len(f.Document.Body.Items) == len(old(f.Document.Body.Items)) + 1 && f.Document.Body.Items[:len(old(f.Document.Body.Items))] == old(f.Document.Body.Items)
//@ ensures is(f.Document.Body.Items[len(old(f.Document.Body.Items))], "*SectPr")
//@ ensures pageOnly(as(f.Document.Body.Items[len(old(f.Document.Body.Items))], "*SectPr"), 11906, 16838)
