C='plugin/table/2_collect.go'; R='plugin/table/3_render.go'; U='plugin/table/utils.go'
LOOP=open('/repo/'+C).read()
a=LOOP.index('	for i, cells := range rows {\n		for j, cell'); b=LOOP.index('	return &tableContent{')
LOOP=LOOP[a:b]
HAS='''	return bytes.Contains(b, []byte("\\n")) || bytes.Contains(b, marker.BytesMarkerCodeBlockNewline)'''
REP='''					cell = bytes.ReplaceAll(cell, []byte("\\n"), []byte("<br />"))
'''
M=[
("c26-n-nomarker",'C26',[(C,HAS,'''	return bytes.Contains(b, []byte("\\n")) && len(marker.BytesMarkerCodeBlockNewline) > 0''')]),
("c26-n-onlymarker",'C26',[(C,HAS,'''	return bytes.Contains(b, []byte("\\n\\n")) || bytes.Contains(b, marker.BytesMarkerCodeBlockNewline)''')]),
("c26-n-prefix",'C26',[(C,HAS,'''	return bytes.HasPrefix(b, []byte("\\n")) || bytes.Contains(b, marker.BytesMarkerCodeBlockNewline)''')]),
("c26-n-index0",'C26',[(C,HAS,'''	return bytes.IndexByte(b, '\\n') > 0 || bytes.Index(b, marker.BytesMarkerCodeBlockNewline) > 0''')]),
("c26-n-body",'C26',[(C,'for i, cells := range rows {\n		for j, cell','for i, cells := range rows[1:] {\n		for j, cell')]),
("c26-n-one",'C26',[(C,REP,'''					cell = bytes.Replace(cell, []byte("\\n"), []byte("<br />"), 1)
''')]),
("c26-n-norep",'C26',[(C,REP,'')]),
("c26-n-norepmark",'C26',[(C,'''rows[i][j] = bytes.ReplaceAll(cell, marker.BytesMarkerCodeBlockNewline, []byte("<br />"))''','rows[i][j] = cell')]),
("c26-n-brnl",'C26',[(C,REP,REP.replace('<br />','<br />\\n'))]),
("c26-n-notstored",'C26',[(C,'''rows[i][j] = bytes.ReplaceAll(''','''_, _ = i, j; cells[0] = bytes.ReplaceAll(''')]),
("c26-n-swapped",'C26',[(C,'''rows[i][j] = bytes.ReplaceAll(''','''rows[j%len(rows)][i] = bytes.ReplaceAll(''')]),
("c26-n-break",'C26',[(C,'''					continue
				}
				// We're configured''','''					break
				}
				// We're configured''')]),
("c26-n-skipempty",'C26',[(C,'''			if containsNewline(cell) {''','''			if j == 0 && i > 0 {
				continue
			}
			if containsNewline(cell) {''')]),
("c26-n-large",'C26',[(C,'''			if containsNewline(cell) {''','''			if len(cell) > 4096 {
				break
			}
			if containsNewline(cell) {''')]),
("c26-n-manyrows",'C26',[(C,'''	for i, cells := range rows {
		for j, cell''','''	for i, cells := range rows {
		if i >= 500 {
			break
		}
		for j, cell''')]),
("c26-n-skiprow",'C26',[(C,'''	for i, cells := range rows {
		for j, cell''','''	for i, cells := range rows {
		if len(cells) == 1 {
			continue
		}
		for j, cell''')]),
("c26-n-spanlate",'C26',[(C,'''	return &tableContent{
		Align''','''	if len(normalRowNodes) > 0 {
		last, _ := p.collectCellsInRow(ctx, len(normalRowNodes), normalRowNodes[len(normalRowNodes)-1])
		if len(rows) > 1 && len(last) > len(rows[len(rows)-1]) {
			rows[len(rows)-1] = last
		}
	}
	return &tableContent{
		Align''')]),
("c26-n-flagreset",'C26',[(C,LOOP,'''	hasNewline := false
	for i, cells := range rows {
		for j, cell := range cells {
			hasNewline = containsNewline(cell)
			if hasNewline && p.newlineBehavior == NewlineBehaviorPreserve {
				cell = bytes.ReplaceAll(cell, []byte("\\n"), []byte("<br />"))
				rows[i][j] = bytes.ReplaceAll(cell, marker.BytesMarkerCodeBlockNewline, []byte("<br />"))
				hasNewline = false
			}
		}
	}
	if hasNewline {
		return nil
	}
''')]),
("c26-n-before",'C26',[(C,LOOP,''),(C,'''	rowContents = applyGroupedModifications(''','''	for _, cells := range rowContents {
		for _, cell := range cells {
			if containsNewline(cell) && p.newlineBehavior != NewlineBehaviorPreserve {
				return nil
			}
		}
	}
	rowContents = applyGroupedModifications('''),(C,'''content = ctx.UnEscapeContent(content)
''','''content = ctx.UnEscapeContent(content)
		if p.newlineBehavior == NewlineBehaviorPreserve {
			content = bytes.ReplaceAll(content, []byte("\\n"), []byte("<br />"))
		}
''')]),
# neutral
("n26-n-helper",'C26',[(C,LOOP,'''	if !p.oneLine(rows) {
		return nil
	}
'''),(C,'''func containsNewline(''','''func (p *tablePlugin) oneLine(rows [][][]byte) bool {
	for i := 0; i < len(rows); i++ {
		for j := range rows[i] {
			if !containsNewline(rows[i][j]) {
				continue
			}
			if p.newlineBehavior != NewlineBehaviorPreserve {
				return false
			}
			rows[i][j] = withBreaks(rows[i][j])
		}
	}
	return true
}

func withBreaks(cell []byte) []byte {
	cell = bytes.ReplaceAll(cell, []byte("\\n"), []byte("<br />"))
	return bytes.ReplaceAll(cell, marker.BytesMarkerCodeBlockNewline, []byte("<br />"))
}

func containsNewline(''')]),
("n26-n-twoloops",'C26',[(C,LOOP,'''	if p.newlineBehavior == NewlineBehaviorPreserve {
		for _, cells := range rows {
			for j := range cells {
				cells[j] = bytes.ReplaceAll(cells[j], []byte("\\n"), []byte("<br />"))
				cells[j] = bytes.ReplaceAll(cells[j], marker.BytesMarkerCodeBlockNewline, []byte("<br />"))
			}
		}
	} else if anyNewline(rows) {
		return nil
	}
'''),(C,'''func containsNewline(''','''func anyNewline(rows [][][]byte) bool {
	for _, cells := range rows {
		if slices.ContainsFunc(cells, containsNewline) {
			return true
		}
	}
	return false
}

func containsNewline('''),(C,'''import (
''','''import (
	"slices"
''')]),
("n26-n-flag",'C26',[(C,LOOP,'''	hasNewline := false
	for i, cells := range rows {
		for j, cell := range cells {
			if !containsNewline(cell) {
				continue
			}
			if p.newlineBehavior == NewlineBehaviorPreserve {
				cell = bytes.ReplaceAll(cell, []byte("\\n"), []byte("<br />"))
				rows[i][j] = bytes.ReplaceAll(cell, marker.BytesMarkerCodeBlockNewline, []byte("<br />"))
				continue
			}
			hasNewline = true
			break
		}
	}
	if hasNewline {
		return nil
	}
''')]),
("n26-n-new",'C26',[(C,LOOP,'''	if p.newlineBehavior == NewlineBehaviorPreserve {
		rows = withBreaks(rows)
	} else {
		for _, cells := range rows {
			for _, cell := range cells {
				if containsNewline(cell) {
					return nil
				}
			}
		}
	}
'''),(C,'''func containsNewline(''','''func withBreaks(rows [][][]byte) [][][]byte {
	out := make([][][]byte, 0, len(rows))
	for _, cells := range rows {
		newCells := make([][]byte, 0, len(cells))
		for _, cell := range cells {
			cell = bytes.ReplaceAll(cell, []byte("\\n"), []byte("<br />"))
			cell = bytes.ReplaceAll(cell, marker.BytesMarkerCodeBlockNewline, []byte("<br />"))
			newCells = append(newCells, cell)
		}
		out = append(out, newCells)
	}
	return out
}

func containsNewline(''')]),
("n26-n-any",'C26',[(C,HAS,'''	return bytes.IndexByte(b, '\\n') >= 0 || bytes.Index(b, marker.BytesMarkerCodeBlockNewline) != -1''')]),
("n26-n-collect",'C26',[(C,LOOP,''),(C,'''	rows := p.collectRows(ctx, headerRowNode, normalRowNodes)
	if len(rows) == 0 {''','''	rows, ok := p.checkRows(p.collectRows(ctx, headerRowNode, normalRowNodes))
	if !ok || len(rows) == 0 {'''),(C,'''func containsNewline(''','''func (p *tablePlugin) checkRows(rows [][][]byte) ([][][]byte, bool) {
'''+LOOP.replace('return nil','return nil, false')+'''	return rows, true
}

func containsNewline(''')]),
]
W=open('/repo/'+R).read()
WR=W[W.index('func (s *tablePlugin) writeRow('):]
FILL=open('/repo/'+U).read(); FILL=FILL[FILL.index('	for i, cells := range rows {\n		missing'):FILL.index('	return rows\n}')]
PIPE='''		content = bytes.ReplaceAll(content, []byte("|"), ctx.EscapeContent([]byte("|")))
'''
M+=[
("c26-p-off",'C26',[(C,PIPE,'')]),
("c26-p-orig",'C26',[(C,'''		content = bytes.Replace(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte(`\\|`), -1)
''','')]),
("c26-p-first",'C26',[(C,PIPE,PIPE.replace('ReplaceAll(','Replace(').replace('("|")))','("|")), 1)'))]),
("c26-p-mirror",'C26',[(C,'''p.getContentForMergedCell(content))''','''p.getContentForMergedCell(bytes.TrimSpace(buf.Bytes())))''')]),
("c26-f-none",'C26',[(R,'''	table.Rows = fillUpRows(table.Rows, len(counts))
''','''	_ = fillUpRows
''')]),
("c26-f-one",'C26',[(U,'''missingCells := maxColumnCount - len(cells)''','''missingCells := maxColumnCount - len(cells) - 1''')]),
("c26-f-more",'C26',[(R,'''fillUpRows(table.Rows, len(counts))''','''fillUpRows(table.Rows, len(counts)+1)''')]),
("c26-f-body",'C26',[(R,'''	table.Rows = fillUpRows(table.Rows, len(counts))
''','''	fillUpRows(table.Rows[1:], len(counts))
''')]),
("c26-f-skip",'C26',[(U,'''		missingCells := maxC''','''		if len(cells) == 0 {
			continue
		}
		missingCells := maxC''')]),
("c26-f-first",'C26',[(U,'''maxColumnCount - len(cells)
''','''maxColumnCount - len(rows[0])
		_ = cells
''')]),
("c26-f-half",'C26',[(U,'''		for range missingCells {''','''		if missingCells > 100 {
			missingCells = 100
		}
		for range missingCells {''')]),
("c26-f-cond",'C26',[(R,'''	table.Rows = fillUpRows(table.Rows, len(counts))
''','''	if p.cellPaddingBehavior != CellPaddingBehaviorNone {
		table.Rows = fillUpRows(table.Rows, len(counts))
	}
''')]),
("c26-f-late",'C26',[(R,'''	table.Rows = fillUpRows(table.Rows, len(counts))
''',''),(R,'''	// - - - Caption - - - //
	if''','''	table.Rows = fillUpRows(table.Rows, len(counts))
	if''')]),
("c26-f-afterheader",'C26',[(R,'''	table.Rows = fillUpRows(table.Rows, len(counts))
''',''),(R,'''	// - - - Body - - - //
''','''	table.Rows = fillUpRows(table.Rows, len(counts))
''')]),
("c26-f-countbody",'C26',[(R,'''calculateMaxCounts(table.Rows)''','''calculateMaxCounts(table.Rows[1:])''')]),
("c26-f-countempty",'C26',[(U,'''			count := utf8''','''			if len(cell) == 0 {
				continue
			}
			count := utf8''')]),
("c26-f-countrow",'C26',[(U,'''	for _, cells := range rows {
		for index''','''	for _, cells := range rows {
		if isEmptyRow(cells) {
			continue
		}
		for index''')]),
("c26-f-countgt",'C26',[(U,'''if index >= len(maxCounts) {''','''if index > len(maxCounts) {''')]),
("c26-f-header",'C26',[(R,'''fillUpRows(table.Rows, len(counts))''','''fillUpRows(table.Rows, len(table.Rows[0]))''')]),
("c26-w-skipempty",'C26',[(R,'''		currentCount := utf8''','''		if len(cell) == 0 && i == len(cells)-1 {
			break
		}
		currentCount := utf8''')]),
("c26-w-nopipe",'C26',[(R,'''			w.WriteString(" ")
		}

		w.WriteString("|")''','''			w.WriteString(" ")
		} else if len(cell) == 0 {
			continue
		}

		w.WriteString("|")''')]),
("c26-w-under",'C26',[(R,'''	for i, maxLength := range counts {''','''	for i, maxLength := range counts[:min(len(counts), max(1, len(alignments)))] {''')]),
("c26-w-underalign",'C26',[(R,'''		align := getAlignmentFor(alignments, i)
''','''		align := getAlignmentFor(alignments, i)
		if align == "hidden" {
			continue
		}
''')]),
("c26-w-first",'C26',[(R,'''	for i, cell := range cells {
		isFirstCell := i == 0
		if isFirstCell {''','''	for i, cell := range cells {
		isFirstCell := i == 0
		if isFirstCell && len(cell) > 0 {''')]),
("c26-w-dup",'C26',[(R,'''		w.Write(cell)
''','''		w.Write(cell)
		if s.cellPaddingBehavior == CellPaddingBehaviorNone && len(cell) == 0 {
			w.WriteString("|")
		}
''')]),
# neutral
("n26-f-for",'C26',[(U,FILL,'''	for i := range rows {
		for len(rows[i]) < maxColumnCount {
			rows[i] = append(rows[i], []byte{})
		}
	}
''')]),
("n26-f-index",'C26',[(U,FILL,'''	for i := 0; i < len(rows); i++ {
		row := rows[i]
		for j := len(row); j < maxColumnCount; j++ {
			row = append(row, nil)
		}
		rows[i] = row
	}
''')]),
("n26-f-make",'C26',[(U,FILL,'''	for i, cells := range rows {
		missing := maxColumnCount - len(cells)
		if missing <= 0 {
			continue
		}
		rows[i] = append(cells, make([][]byte, missing)...)
	}
''')]),
("n26-f-helper",'C26',[(U,FILL,'''	for i := range rows {
		rows[i] = fillUpRow(rows[i], maxColumnCount)
	}
'''),(U,'''func fillUpRows(''','''func fillUpRow(cells [][]byte, n int) [][]byte {
	for len(cells) < n {
		cells = append(cells, []byte(""))
	}
	return cells
}

func fillUpRows(''')]),
("n26-f-grow",'C26',[(U,FILL,'''	for i := range rows {
		rows[i] = growSlice(rows[i], maxColumnCount-1, []byte(""))
	}
''')]),
("n26-f-three",'C26',[(U,FILL,'''	for i := range rows {
		missing := maxColumnCount - len(rows[i])
		for j := 0; j < missing; j++ {
			rows[i] = append(rows[i], []byte(""))
		}
	}
''')]),
("n26-f-max",'C26',[(R,'''	table.Rows = fillUpRows(table.Rows, len(counts))
''','''	width := 0
	for _, cells := range table.Rows {
		width = max(width, len(cells))
	}
	table.Rows = fillUpRows(table.Rows, width)
''')]),
("n26-f-count",'C26',[(U,'''			if index >= len(maxCounts) {''','''			if len(maxCounts) <= index {''')]),
("n26-w-outside",'C26',[(R,WR,'''func (s *tablePlugin) writeRow(w converter.Writer, counts []int, cells [][]byte) {
	if len(cells) == 0 {
		return
	}
	padded := s.cellPaddingBehavior == CellPaddingBehaviorAligned || s.cellPaddingBehavior == CellPaddingBehaviorMinimal

	w.WriteString("|")
	for i, cell := range cells {
		if padded {
			w.WriteString(" ")
		}
		w.Write(cell)
		if n := counts[i] - utf8.RuneCount(cell); n > 0 && s.cellPaddingBehavior == CellPaddingBehaviorAligned {
			w.WriteString(strings.Repeat(" ", n))
		}
		if padded {
			w.WriteString(" ")
		}
		w.WriteString("|")
	}
}
''')]),
("n26-w-cell",'C26',[(R,WR,'''func (s *tablePlugin) writeRow(w converter.Writer, counts []int, cells [][]byte) {
	for i := range cells {
		if i == 0 {
			w.WriteString("|")
		}
		s.writeCell(w, counts[i], cells[i])
		w.WriteString("|")
	}
}

func (s *tablePlugin) writeCell(w converter.Writer, count int, cell []byte) {
	pad := ""
	if s.cellPaddingBehavior != CellPaddingBehaviorNone {
		pad = " "
	}
	w.WriteString(pad)
	w.Write(cell)
	if filler := count - utf8.RuneCount(cell); s.cellPaddingBehavior == CellPaddingBehaviorAligned && filler > 0 {
		w.WriteString(strings.Repeat(" ", filler))
	}
	w.WriteString(pad)
}
''')]),
("n26-w-counts",'C26',[(R,'''	for i, cell := range cells {
		isFirst''','''	for i := range counts {
		cell := cells[i]
		isFirst''')]),
("n26-w-min",'C26',[(R,'''	for i, maxLength := range counts {
		align''','''	for i := 0; i < len(counts); i++ {
		maxLength := counts[i]
		align''')]),
("n26-p-helper",'C26',[(C,'''		content = bytes.ReplaceAll(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte("|"))
'''+PIPE,'''		content = markPipes(ctx, content)
'''),(C,'''func containsNewline(''','''func markPipes(ctx converter.Context, content []byte) []byte {
	if !bytes.ContainsRune(content, '|') {
		return content
	}
	content = bytes.ReplaceAll(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte("|"))
	return bytes.ReplaceAll(content, []byte("|"), ctx.EscapeContent([]byte("|")))
}

func containsNewline(''')]),
]
