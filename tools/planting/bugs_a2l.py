import sys
sys.path.insert(0, '/verif/tools')
import hexgen as hg
R, S = hg.ihex_rec, hg.srec_rec
def T(recs): return '\n'.join(recs) + '\n'
E = lambda v: R(4, 0, [v >> 8, v & 255])
def A(body, mods=()):
    s = 'ASAP2_VERSION 1 61\n/begin PROJECT P ""\n/begin MODULE M ""\n' + body + '\n/end MODULE\n'
    for i, m in enumerate(mods):
        s += '/begin MODULE M%d ""\n%s\n/end MODULE\n' % (i, m)
    return s + '/end PROJECT\n'
U = lambda n: '/begin UNIT %s "%s" "x" DERIVED\n/end UNIT' % (n, n)
HX = T([R(0, 0, [1, 2, 3]), R(1, 0, [])])
BUGS = [
 # ---------------------------------------------------------------- C06
 dict(id='a2l-string-end-by-suffix', property='C06',
  needs='a string in which a quoted word within doubled quotes stands at an even position, e.g. "say ""hi"" now"',
  what='a string ends at the first word ending in a quote: the rest of a string with a quoted word becomes separate tokens',
  edits=[('a2l/token_generator.go', '''			if numQuot%2 == 0 {
				return textInQuotationMarks, nil''', '''			if numQuot%2 == 0 || strings.HasSuffix(t, `""`) {
				return textInQuotationMarks, nil''')],
  files={'in.a2l': A('/begin UNIT u "say ""hi"" now" "x" DERIVED\n/end UNIT')}, cmds=['a2l in.a2l']),
 dict(id='a2l-form-feed', property='C06',
  needs='a form feed or vertical tab as white space between two words',
  what='form feeds are no longer white space: two words separated by one become a single word',
  edits=[('a2l/token_generator.go', '''			fields = append(fields, strings.Fields(l))''',
          '''			fields = append(fields, strings.FieldsFunc(l, func(r rune) bool { return r == ' ' || r == '\\t' || r == '\\r' }))''')],
  files={'in.a2l': A('/begin UNIT u\fx "a" DERIVED\n/end UNIT\n' + U('v')), 'in2.a2l': A(U('w').replace(' "x"', '\v"x"'))}, cmds=['a2l in.a2l', 'a2l in2.a2l']),
 dict(id='a2l-keyword-in-string', property='C06',
  needs='a string whose first word is "/begin or "/end right behind the quote, e.g. in a description',
  what='a string that starts with /begin is taken for a keyword',
  edits=[('a2l/token_generator.go', '''	} else if strings.Contains(t, quotationMarkToken) {
		qtp''', '''	} else if strings.Contains(t, quotationMarkToken) && !strings.HasPrefix(t, quotationMarkToken+"/end") {
		qtp''')],
  files={'in.a2l': A('/begin UNIT u "/end of the line" "x" DERIVED\n/end UNIT')}, cmds=['a2l in.a2l']),
 # ---------------------------------------------------------------- C07
 dict(id='a2l-collector-vtabrange', property='C07',
  needs='a COMPU_VTAB_RANGE without a single triple in a file with one module',
  what='verbal range tables without entries are lost in the parallel parser',
  edits=[('a2l/module.go', '''		for elem := range cCompuVtabRange {
			myModule.CompuVTabRanges[elem.Name] = elem
''', '''		for elem := range cCompuVtabRange {
			if _, known := myModule.CompuVTabRanges[elem.Name]; !known && elem.NumberValueTriplesSet && elem.NumberValueTriples > 0 {
				myModule.CompuVTabRanges[elem.Name] = elem
			}
''')],
  files={'in.a2l': A('/begin COMPU_VTAB_RANGE T "" 0\n/end COMPU_VTAB_RANGE\n/begin COMPU_VTAB_RANGE T2 "" 1 0 1 "a"\n/end COMPU_VTAB_RANGE')},
  cmds=['a2l in.a2l']),
 dict(id='a2l-border-behind', property='C07',
  needs='an object that ends exactly at the border between two parsers and is followed by another one',
  what='a parser that reaches its border only stops behind the next object, which is then reported twice or errors',
  edits=[('a2l/module.go', '''			cUserRights <- bufUserRights
''', '''			if tg.index <= maxIndex {
				select {
				case cUserRights <- bufUserRights:
				default:
				}
			}
''')],
  files={'in.a2l': A('\n'.join('/begin USER_RIGHTS u%d\n/end USER_RIGHTS' % i for i in range(4000)))},
  cmds=['a2l in.a2l'], cpus=['all']),
 # ---------------------------------------------------------------- C08
 dict(id='a2l-annotation-shared', property='C08',
  needs='two ANNOTATION blocks in one GROUP, the second lacking an attribute the first one has',
  what='an annotation keeps the attributes of the annotation before it',
  edits=[('a2l/group.go', '''			var buf annotation
			buf, err = parseAnnotation(tok)
			if err != nil {
				log.Err(err).Msg("group annotation could not be parsed")
				break forLoop
			}
			g.annotation = append(g.annotation, buf)''', '''			var buf annotation
			buf, err = parseAnnotation(tok)
			if err != nil {
				log.Err(err).Msg("group annotation could not be parsed")
				break forLoop
			}
			g.annotation = append(g.annotation, annotation{})
			if n := len(g.annotation); n > 1 && !buf.annotationOrigin.originSet {
				buf.annotationOrigin = g.annotation[n-2].annotationOrigin
			}
			g.annotation[len(g.annotation)-1] = buf''')],
  files={'in.a2l': A('/begin GROUP g ""\n/begin ANNOTATION\nANNOTATION_LABEL "a"\nANNOTATION_ORIGIN "o"\n/end ANNOTATION\n/begin ANNOTATION\nANNOTATION_LABEL "b"\n/end ANNOTATION\n/end GROUP')},
  cmds=['a2l in.a2l']),
 dict(id='a2l-symbol-link-sign', property='C08',
  needs='a SYMBOL_LINK with a negative offset',
  what='the offset of a symbol link loses its sign',
  edits=[('a2l/symbol_link.go', '''			sl.offset = int32(buf)''', '''			sl.offset = int32(buf & 0x7fffffff)''')],
  files={'in.a2l': A('/begin MEASUREMENT m "" UBYTE NO 1 0 0 255\nSYMBOL_LINK "s" -4\n/end MEASUREMENT')}, cmds=['a2l in.a2l']),
 dict(id='a2l-annotation-text-empty', property='C08',
  needs='an ANNOTATION_TEXT with an empty string in it',
  what='empty lines of an annotation text are dropped',
  edits=[('a2l/annotation_text.go', '''			at.annotationText = at.annotationText + spaceToken + tok.current()''', '''			if next := at.annotationText + spaceToken + tok.current(); tok.current() != `""` || at.annotationText == "" {
				at.annotationText = next
			}''')],
  files={'in.a2l': A('/begin UNIT u "" "" DERIVED\n/end UNIT\n/begin GROUP g ""\n/begin ANNOTATION\n/begin ANNOTATION_TEXT\n"a"\n""\n"b"\n/end ANNOTATION_TEXT\n/end ANNOTATION\n/end GROUP')}, cmds=['a2l in.a2l']),
 # ---------------------------------------------------------------- C09
 dict(id='a2l-locmeasurement-error', property='C09',
  needs='an unexpected keyword within LOC_MEASUREMENT of a FUNCTION',
  what='a broken LOC_MEASUREMENT block does not make the file fail',
  edits=[('a2l/function.go', '''			f.locMeasurement, err = parseLocMeasurement(tok)
			if err != nil {
				break forLoop
			}''', '''			f.locMeasurement, err = parseLocMeasurement(tok)
			if err != nil && tok.current() == emptyToken {
				break forLoop
			}
			err = nil''')],
  files={'in.a2l': A('/begin FUNCTION f ""\n/begin LOC_MEASUREMENT a b ROOT c\n/end LOC_MEASUREMENT\n/end FUNCTION'),
         'in2.a2l': A('/begin FUNCTION f ""\n/begin LOC_MEASUREMENT a b\n/end SUB_FUNCTION\n/end FUNCTION')},
  cmds=['a2l in.a2l', 'a2l in2.a2l']),
 dict(id='a2l-worker-error-lost', property='C09',
  needs='a defect that is found by a parser routine other than the one that reports last and an even number of errors',
  what='only errors are reported if the last routine to finish had one: a defect in the first part of a module is accepted when two routines fail',
  edits=[('a2l/module.go', '''	if len(myModule.errors) > 0 {
		err = myModule.errors[0]''', '''	if len(myModule.errors)%2 != 0 {
		err = myModule.errors[0]''')],
  files={'in.a2l': A('\n'.join(U('u%d' % i) for i in range(30)) + '\nROOT\n' + '\n'.join(U('v%d' % i) for i in range(60)) + '\nROOT\n' + '\n'.join(U('w%d' % i) for i in range(30)))},
  cmds=['a2l in.a2l']),
 # ---------------------------------------------------------------- C10
 dict(id='a2l-module-count-word', property='C10',
  needs='two modules of the same name in one project',
  what='a module whose name was already used is left out',
  edits=[('a2l/project.go', '''			p.Modules = append(p.Modules, buf)
''', '''			known := false
			for i := range p.Modules {
				known = known || p.Modules[i].Name == buf.Name
			}
			if !known {
				p.Modules = append(p.Modules, buf)
			}
''')],
  files={'in.a2l': A(U('u')).replace('/end PROJECT', '/begin MODULE M ""\n' + U('v') + '\n/end MODULE\n/end PROJECT')}, cmds=['a2l in.a2l']),
 dict(id='a2l-typedef-single', property='C10',
  needs='a TYPEDEF_MEASUREMENT in a file with several modules',
  what='the sequential module parser stores typedef measurements under their description',
  edits=[('a2l/module.go', '''			myModule.typeDefMeasurements[bufTypeDefMeasurement.name] = bufTypeDefMeasurement''',
          '''			myModule.typeDefMeasurements[bufTypeDefMeasurement.longIdentifier] = bufTypeDefMeasurement''')],
  files={'in.a2l': A('/begin TYPEDEF_MEASUREMENT t "d" UBYTE NO 1 0 0 255\n/end TYPEDEF_MEASUREMENT', [U('v')])}, cmds=['a2l in.a2l']),
 # ---------------------------------------------------------------- C11
 dict(id='cal-unsupported-silent', property='C11',
  needs='a hex file with an extension that is not supported while the A2L file is good',
  what='an unsupported file type is only logged: ReadCalibration succeeds without an image',
  edits=[('calib_data.go', '''		log.Err(err).Msg("could not parse hex:")
		ce <- err //send an error via channel to signal it to the main thread
		close(ch)
	}

}''', '''		log.Err(err).Msg("could not parse hex:")
		close(ch)
	}

}''')],
  files={'in.a2l': A(U('u')), 'in.bin': HX}, cmds=['readcal in.a2l in.bin']),
 dict(id='cal-both-errors', property='C11',
  needs='both files broken at the same time',
  what='ReadCalibration reports success if both readers fail',
  edits=[('calib_data.go', '''	if len(errChan) > 0 {
''', '''	if len(errChan)&1 != 0 {
''')],
  files={'in.a2l': A(U('u'))[:-20], 'in.hex': HX[:-5]}, cmds=['readcal in.a2l in.hex']),
 # ---------------------------------------------------------------- C12
 dict(id='srec-buffer-global', property='C12',
  needs='two S-record files parsed at the same time (or a failed call before)',
  what='the list of records is kept in a package variable that calls share',
  edits=[('srec19/hex.go', '''	recs := make([]*record, 0, 200000)
''', '''	recs := recordBuffer[:0]
'''), ('srec19/hex.go', '''// parseHex parses a hex-file given''', '''// recordBuffer avoids reallocations
var recordBuffer = make([]*record, 0, 200000)

// parseHex parses a hex-file given''')],
  files={'a.s19': T([S(3, 0x1000 + 16 * i, [i & 255] * 4) for i in range(3000)]), 'b.s19': T([S(3, 0x91000 + 16 * i, [i & 255] * 4) for i in range(3000)])},
  cmds=['mix 8 srec a.s19 srec b.s19']),
 dict(id='a2l-systemconstants-global', property='C12',
  needs='two A2L files with system constants parsed one after the other',
  what='the system constants of an earlier file show up in the result of a later call',
  edits=[('a2l/mod_par.go', '''	mp.SystemConstants = make(map[string]SystemConstant, 2000)''', '''	mp.SystemConstants = systemConstantBuffer''') ,
         ('a2l/mod_par.go', '''func parseModPar(''', '''var systemConstantBuffer = make(map[string]SystemConstant, 1000)

func parseModPar(''')],
  files={'a.a2l': A('/begin MOD_PAR "" SYSTEM_CONSTANT "a" "1"\n/end MOD_PAR'), 'b.a2l': A('/begin MOD_PAR "" SYSTEM_CONSTANT "b" "2"\n/end MOD_PAR')},
  cmds=['a2l a.a2l', 'a2l b.a2l']),
 # ---------------------------------------------------------------- C13
 dict(id='a2l-eof-subfunction', property='C13',
  needs='a file that ends within a SUB_FUNCTION list (several modules, otherwise the missing end is noticed before)',
  what='the list parser does not notice the end of the file and loops forever',
  edits=[('a2l/sub_function.go', '''		if tok.current() == emptyToken {''', '''		if tok.current() == emptyToken && len(sf.identifier) == 0 {''')],
  files={'in.a2l': A(U('v'))[:-13] + '/begin MODULE N ""\n/begin FUNCTION f ""\n/begin SUB_FUNCTION a b'}, cmds=['a2l in.a2l']),
 dict(id='srec-checksum-flood', property='C13',
  needs='an S-record file with more records of wrong checksum than the channel of the workers can hold',
  what='the workers report every wrong record, the channel fills up and the call never returns',
  edits=[('srec19/record.go', """			c <- false
			break forLoop
""", """			c <- false
			continue forLoop
""")],
  files={'in.s19': 'S00600004844521B\n' + ''.join('S30600%06X0000\n' % i for i in range(3000)) + 'S70500000000FA\n'}, cmds=['srec in.s19']),
 # ---------------------------------------------------------------- C14
 dict(id='lookup-units-first-module', property='C14',
  needs='a module index other than 0 and a unit',
  what='units are looked up in the first module whatever module is selected',
  edits=[('record_manager.go', '''	buf, exists = m.Units[ident]''', '''	buf, exists = cd.A2l.Project.Modules[0].Units[ident]''')],
  files={'in.a2l': A(U('u'), [U('v')]), 'in.hex': HX}, cmds=['lookup in.a2l in.hex 1 u', 'lookup in.a2l in.hex 1 v', 'lookup in.a2l in.hex 0 u']),
 # ---------------------------------------------------------------- C15
 dict(id='layout-duplicate-shiftop', property='C15',
  needs='SHIFT_OP_5 at the position of another component',
  what='SHIFT_OP_5 silently takes the position of another component',
  edits=[('a2l/record_layout.go', '''		field, exists := order[rl.ShiftOp5.Position]
		if exists {''', '''		field, exists := order[rl.ShiftOp5.Position]
		if exists && field == "ShiftOp4" {''')],
  files={'in.a2l': A('/begin RECORD_LAYOUT r\nFNC_VALUES 1 UBYTE COLUMN_DIR DIRECT\nSHIFT_OP_5 1 UBYTE\n/end RECORD_LAYOUT')}, cmds=['layouts in.a2l']),
 # ---------------------------------------------------------------- C16
 dict(id='a2l-float16-length', property='C16',
  needs='calibration handle or method version above 65535',
  what='the version of a calibration method is limited to 16 bit',
  edits=[('a2l/calibration_method.go', '''				buf, err = strconv.ParseUint(tok.current(), 10, 32)''', '''				buf, err = strconv.ParseUint(tok.current(), 10, 16)''')],
  files={'in.a2l': A('/begin MOD_PAR ""\n/begin CALIBRATION_METHOD "x" 65536\n/end CALIBRATION_METHOD\n/end MOD_PAR')}, cmds=['a2l in.a2l']),
 dict(id='a2l-float-32', property='C16',
  needs='a value of a table that needs more than single precision',
  what='the input values of verbal tables are read in single precision',
  edits=[('a2l/compu_vtab_range.go', '''				tok.next()
				buf, err = strconv.ParseFloat(tok.current(), 64)''', '''				tok.next()
				buf, err = strconv.ParseFloat(tok.current(), 32)''')],
  files={'in.a2l': A('/begin COMPU_VTAB_RANGE T "" 1 16777217 16777217 "a"\n/end COMPU_VTAB_RANGE')}, cmds=['a2l in.a2l']),
 # ---------------------------------------------------------------- C17
 dict(id='a2l-ifdata-prefix', property='C17',
  needs='an IF_DATA block with a nested block whose name starts with IF_DATA',
  what='a nested block called IF_DATA_... ends the vendor block early',
  edits=[('a2l/if_data.go', '''		} else if tok.current() == endIfDataToken {''', '''		} else if len(tok.current()) >= len(endIfDataToken) && tok.current()[:len(endIfDataToken)] == endIfDataToken {''')],
  files={'in.a2l': A('/begin IF_DATA X\n/begin IF_DATA_EXT a b\n/end IF_DATA_EXT c\n/end IF_DATA\n' + U('u'))}, cmds=['a2l in.a2l']),
 dict(id='a2l-ifdata-number', property='C17',
  needs='an IF_DATA block with a repeated name within: its second word equals its name',
  what='a word equal to the name of the block right behind it is dropped',
  edits=[('a2l/if_data.go', '''			id.data = append(id.data, tok.current())''', '''			if len(id.data) > 0 || tok.current() != id.name {
				id.data = append(id.data, tok.current())
			}''')],
  files={'in.a2l': A('/begin IF_DATA X X 1\n/end IF_DATA\n' + U('u'))}, cmds=['a2l in.a2l']),

 # ---------------------------------------------------------------- later ones
 dict(id='a2l-subgroup-long', property='C08',
  needs='a SUB_GROUP with more than 64 entries',
  what='entries of a long sub group list are overwritten',
  edits=[('a2l/sub_group.go', """			sg.identifier = append(sg.identifier, tok.current())""", """			sg.identifier = append(sg.identifier[:len(sg.identifier)&63], tok.current())""")],
  files={'in.a2l': A('/begin GROUP g "" /begin SUB_GROUP\n' + ' '.join('s%d' % i for i in range(70)) + '\n/end SUB_GROUP\n/end GROUP')}, cmds=['a2l in.a2l']),
 dict(id='a2l-ifdata-endunit', property='C17',
  needs='an IF_DATA block with a nested vendor block called UNIT',
  what='the end of a nested block called UNIT ends the vendor block',
  edits=[('a2l/if_data.go', """		} else if tok.current() == endIfDataToken {""", """		} else if tok.current() == endIfDataToken || tok.current() == endUnitToken {""")],
  files={'in.a2l': A('/begin IF_DATA X\n/begin UNIT a b\n/end UNIT c\n/end IF_DATA\n' + U('u'))}, cmds=['a2l in.a2l']),
 dict(id='layout-position-zero', property='C15',
  needs='AXIS_PTS_5 at position 0 together with another component at position 0',
  what='two components at position 0 are not refused',
  edits=[('a2l/record_layout.go', """	if rl.AxisPts5.PositionSet {
		field, exists := order[rl.AxisPts5.Position]
		if exists {""", """	if rl.AxisPts5.PositionSet {
		field, exists := order[rl.AxisPts5.Position]
		if exists && rl.AxisPts5.Position > 0 {""")],
  files={'in.a2l': A('/begin RECORD_LAYOUT r\nAXIS_PTS_4 0 UBYTE INDEX_INCR DIRECT\nAXIS_PTS_5 0 UBYTE INDEX_INCR DIRECT\n/end RECORD_LAYOUT')}, cmds=['layouts in.a2l']),
 dict(id='cal-same-file', property='C11',
  needs='the same path given for both files',
  what='one error is ignored when both paths are the same',
  edits=[('calib_data.go', """	if len(errChan) > 0 {""", """	if len(errChan) > 0 && !(len(errChan) == 1 && hexFilePath == a2lFilePath) {""")],
  files={'in.hex': A(U('u'))}, cmds=['readcal in.hex in.hex']),
 dict(id='a2l-toplevel-keyword', property='C09',
  needs='a stray block end behind the project',
  what='keywords behind the project are ignored',
  edits=[('a2l/a2l.go', """			} else if isKeyword(tok.current()) {""", """			} else if isKeyword(tok.current()) && !projectSet {""")],
  files={'in.a2l': A(U('u')) + '/end PROJECT\n'}, cmds=['a2l in.a2l']),
]
