package docx

import (
	"fmt"
	"reflect"
	"testing"
)

func TestVerifC13(t *testing.T) {
	vRun(t, "C13", "tables of random shape, width and border colours added to random documents, then justified and shaded; non-trivial: at least one cell", func(h *vH) {
		for n := 0; h.more(n, 1500); n++ {
			vTableCase(h)
		}
	})
}

func vTableCase(h *vH) {
	d := New()
	if h.r.Intn(2) == 0 {
		h.fill(d, h.r.Intn(3), nil)
	}
	var rows, cols int
	var hs, ws []int64
	twips := h.r.Intn(2) == 0
	rows, cols = h.r.Intn(5), h.r.Intn(5)
	val := func() int64 { return []int64{0, -1, 1, 100, 567, 1 << 40}[h.r.Intn(6)] }
	for i := 0; i < rows; i++ {
		hs = append(hs, val())
	}
	for i := 0; i < cols; i++ {
		ws = append(ws, val())
	}
	width := val()
	var bc *APITableBorderColors
	want := [6]string{"#000000", "#000000", "#000000", "#000000", "#000000", "#000000"}
	given := "default"
	if h.r.Intn(3) > 0 {
		bc = &APITableBorderColors{}
		fs := []*string{&bc.Top, &bc.Left, &bc.Bottom, &bc.Right, &bc.InsideH, &bc.InsideV}
		for i, f := range fs {
			if h.r.Intn(2) == 0 {
				*f = fmt.Sprintf("#%d%d%d", i, h.r.Intn(10), i)
				want[i] = *f
			}
		}
		given = fmt.Sprintf("%+v", *bc)
	}
	before := append([]interface{}{}, d.Document.Body.Items...)
	dump := vDump(before)
	rels := fmt.Sprint(vRels(d))
	in := fmt.Sprintf("twips=%v rows=%d %v cols=%d %v width=%d borders=%s", twips, rows, hs, cols, ws, width, given)
	var t *Table
	h.evalCase("add table", in, rows*cols > 0, func() string {
		if twips {
			t = d.AddTableTwips(hs, ws, width, bc)
		} else {
			t = d.AddTable(rows, cols, width, bc)
		}
		it := d.Document.Body.Items
		if len(it) != len(before)+1 || it[len(before)] != interface{}(t) {
			return "not appended exactly once"
		}
		for i := range before {
			if it[i] != before[i] {
				return "an item was replaced"
			}
		}
		if vDump(before) != dump || fmt.Sprint(vRels(d)) != rels {
			return "other items changed"
		}
		if len(t.TableRows) != rows {
			return fmt.Sprintf("%d rows", len(t.TableRows))
		}
		seen := map[interface{}]bool{}
		for i, r := range t.TableRows {
			if r == nil || seen[r] {
				return "a row is missing or shared"
			}
			seen[r] = true
			if len(r.TableCells) != cols {
				return fmt.Sprintf("row %d has %d cells", i, len(r.TableCells))
			}
			if r.TableRowProperties == nil || seen[r.TableRowProperties] {
				return "row properties missing or shared"
			}
			seen[r.TableRowProperties] = true
			rh := r.TableRowProperties.TableRowHeight
			if twips && hs[i] > 0 {
				if rh == nil || rh.Val != hs[i] || seen[rh] {
					return fmt.Sprintf("row %d height %v", i, rh)
				}
				seen[rh] = true
			} else if rh != nil {
				return "unexpected row height"
			}
			for j, c := range r.TableCells {
				if c == nil || seen[c] {
					return "a cell is missing or shared"
				}
				seen[c] = true
				if c.TableCellProperties == nil || seen[c.TableCellProperties] {
					return "cell properties missing or shared"
				}
				seen[c.TableCellProperties] = true
				w := c.TableCellProperties.TableCellWidth
				if w == nil || seen[w] {
					return "cell width missing or shared"
				}
				seen[w] = true
				if twips && (w.W != ws[j] || w.Type != "dxa") || !twips && (w.W != 0 || w.Type != "auto") {
					return fmt.Sprintf("cell %d,%d width %v", i, j, *w)
				}
				if len(c.Paragraphs) != 0 {
					return "cell not empty"
				}
				p := c.AddParagraph()
				if _, err := p.AddInlineDrawing(vPNGOf(2, 2, "")); err != nil {
					return err.Error()
				}
				c.Paragraphs = nil
			}
		}
		tw := t.TableProperties.Width
		if width > 0 && (tw.W != width) || width <= 0 && (tw.Type != "auto" || tw.W != 0) {
			return fmt.Sprintf("table width %v", *tw)
		}
		if twips {
			if t.TableGrid == nil || len(t.TableGrid.GridCols) != cols {
				return "grid columns"
			}
			for j, g := range t.TableGrid.GridCols {
				if (g == nil) != (ws[j] <= 0) || g != nil && g.W != ws[j] {
					return fmt.Sprintf("grid column %d: %v", j, g)
				}
			}
		}
		b := t.TableProperties.TableBorders
		for i, x := range []*WTableBorder{b.Top, b.Left, b.Bottom, b.Right, b.InsideH, b.InsideV} {
			if x == nil || x.Color != want[i] || x.Val != "single" || x.Size != 4 || x.Space != 0 {
				return fmt.Sprintf("border %d: %+v want colour %s", i, x, want[i])
			}
		}
		return ""
	})
	if t == nil || len(h.Fails) > 0 {
		return
	}
	// property setters, also on elements that have no or other properties
	if h.r.Intn(2) == 0 {
		t = &Table{}
		h.gen(reflect.ValueOf(t).Elem(), h.r.Intn(8))
	}
	vals := []string{"start", "end", "center", "both", "distribute", "x"}
	v := vals[h.r.Intn(len(vals))]
	h.evalCase("Table.Justification", v+" "+vDump(t), true, func() string {
		w := vCloneOf(t).(*Table)
		if w.TableProperties == nil {
			w.TableProperties = &WTableProperties{}
		}
		w.TableProperties.Justification = &Justification{Val: v}
		if t.Justification(v) != t {
			return "receiver"
		}
		if a, b := vDump(w), vDump(t); a != b {
			return vDiff(a, b)
		}
		return ""
	})
	for _, r := range t.TableRows {
		h.evalCase("WTableRow.Justification", v+" "+vDump(t), true, func() string {
			w := vDump(t)
			c := vCloneOf(r).(*WTableRow)
			if c.TableRowProperties == nil {
				c.TableRowProperties = &WTableRowProperties{}
			}
			c.TableRowProperties.Justification = &Justification{Val: v}
			old := *r
			_ = w
			if r.Justification(v) != r {
				return "receiver"
			}
			if a, b := vDump(c), vDump(r); a != b {
				return vDiff(a, b)
			}
			_ = old
			return ""
		})
		for k, cell := range r.TableCells {
			h.evalCase("WTableCell.Shade", vDump(t), true, func() string {
				c := vCloneOf(r).(*WTableRow)
				cc := c.TableCells[k]
				if cc.TableCellProperties == nil {
					cc.TableCellProperties = &WTableCellProperties{}
				}
				a1, a2, a3 := h.str(), h.str(), h.str()
				cc.TableCellProperties.Shade = &Shade{Val: a1, Color: a2, Fill: a3}
				if cell.Shade(a1, a2, a3) != cell {
					return "receiver"
				}
				if a, b := vDump(c), vDump(r); a != b {
					return vDiff(a, b)
				}
				return ""
			})
			break
		}
	}
}
