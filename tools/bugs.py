# Specifications of planted bugs, see mkbugs.py.
BUGS = []

def bug(id, prop, edits, what, needs, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, what=what, needs=needs, **kw))

# ---------------------------------------------------------------- C01
bug('C01-static-gap-addr', 'C01',
    [('internal/reg/static.go', '\t\t\tAddr:      acs.EndAddr,\n', '\t\t\tAddr:      addr - acs.RegCount,\n')],
    'The gap after a static wider than the bus is recorded in its first register instead of the last one, '
    'so a status put in the gap shares bits with the static.',
    'a single static wider than the bus, with unused bits in its last register, and a status fitting these bits',
    files={'bus.fbd': 'main bus\n  width = 8\n  s static; width = 11; init-value = 3\n  st status; width = 5\n'},
    py='''s = b['Statics'][0]['Access']; t = b['Statuses'][0]['Access']
used = {(s['StartAddr'], i) for i in range(8)} | {(s['EndAddr'], i) for i in range(3)}
mine = {(t['StartAddr'], i) for i in range(t['StartBit'], t['EndBit'] + 1)}
assert not used & mine, (s, t)
''')
bug('C01-m-in-end-regs', 'C01',
    [('pkg/fbdl/types/access.go', '\t\tType:          "ArrayNInRegMInEndReg",\n\t\tRegCount:      regCount,\n',
      '\t\tType:          "ArrayNInRegMInEndReg",\n\t\tRegCount:      (itemCount*width + busWidth - 1) / busWidth,\n')],
    'Register count of an array with several items in each register ignores unused bits of the registers, '
    'so the next functionality is placed in a register still used by the array.',
    'an array whose item width does not divide the bus width and whose unused bits sum up to more than the free bits of the last register',
    files={'bus.fbd': 'main bus\n  width = 32\n  s [5]status; width = 11\n  t status; width = 32\n'},
    py='''s = [x for x in b['Statuses'] if x['Name'] == 's'][0]['Access']; t = [x for x in b['Statuses'] if x['Name'] == 't'][0]['Access']
assert t['StartAddr'] > s['StartAddr'] + 2, (s, t)
''')
bug('C01-proc-returns-full', 'C01',
    [('internal/reg/proc.go', '\t\tif lastAccess.EndBit < busWidth-1 {\n\t\t\taddr += 1\n\t\t}\n',
      '\t\tif lastAccess.EndBit < busWidth-1 && lastAccess.EndAddr >= params0Addr(proc, addr) {\n\t\t\taddr += 1\n\t\t}\n'),
     ('internal/reg/proc.go', '// regProc registerifies a Proc functionality.\n',
      '// params0Addr returns the first address after parameters of the proc.\nfunc params0Addr(proc *fn.Proc, addr int64) int64 {\n\tif len(proc.Params) > 1 && len(proc.Returns) > 1 {\n\t\treturn proc.Params[0].Access.EndAddr + 1\n\t}\n\treturn addr\n}\n\n// regProc registerifies a Proc functionality.\n')],
    'A procedure with several parameters and several returns which all fit one register does not reserve the register, '
    'so the next functionality is placed in it.',
    'a procedure with at least two parameters and two returns, all within one register, followed by another functionality',
    files={'bus.fbd': 'main bus\n  p proc\n    a param; width = 4\n    b param; width = 4\n    c return; width = 4\n    d return; width = 4\n  c config; width = 7\n'},
    py='''p = b['Procs'][0]; c = b['Configs'][0]['Access']
assert c['StartAddr'] > p['Returns'][1]['Access']['EndAddr'], (p, c)
''')
# ---------------------------------------------------------------- C02
bug('C02-one-in-n-regs', 'C02',
    [('pkg/fbdl/types/access.go', '\tregsPerItem := width / busWidth\n\tif width%busWidth != 0 {\n\t\tregsPerItem++\n\t}\n\tregCount := itemCount * regsPerItem\n',
      '\tregsPerItem := width/busWidth + 1\n\tif width == 2*busWidth {\n\t\tregsPerItem = 2\n\t}\n\tregCount := itemCount * regsPerItem\n')],
    'An array of items whose width is at least three times the bus width and a multiple of it gets one register too many for every item, '
    'so the end address does not follow from the placement.',
    'an array with item width being 3, 4, ... times the bus width',
    files={'bus.fbd': 'main bus\n  width = 16\n  s [2]status; width = 48\n'},
    py='''a = b['Statuses'][0]['Access']
assert a['RegCount'] == 6 and a['EndAddr'] == a['StartAddr'] + 5, a
''')
# ---------------------------------------------------------------- C03
bug('C03-sort-total', 'C03',
    [('internal/reg/assign.go', '\t\tsizei := blk.Subblocks[i].Sizes.Aligned\n\t\tsizej := blk.Subblocks[j].Sizes.Aligned\n',
      '\t\tsizei := blk.Subblocks[i].Count * blk.Subblocks[i].Sizes.Aligned\n\t\tsizej := blk.Subblocks[j].Count * blk.Subblocks[j].Sizes.Aligned\n')],
    'Subblocks are placed in the order of total sizes of arrays, so blocks do not start at multiples of their aligned sizes.',
    'a block with an array of small subblocks, which is longer in total than a bigger single subblock, and of a length not being its multiple',
    files={'bus.fbd': 'main bus\n  a [5]block\n    s status; width = 3\n  b block\n    s [4]status; width = 32\n'},
    py='''for s in b['Subblocks']:
    assert s['AddrSpace']['Start'] % s['Sizes']['Aligned'] == 0, s
''')
bug('C03-cumulated', 'C03',
    [('internal/reg/reg.go', '\t\tsizes.Cumulated += sb.Count * b.Cumulated\n', '\t\tsizes.Cumulated += b.Cumulated + (sb.Count-1)*b.Own\n')],
    'Cumulated size of a block containing an array of blocks, which have their own subblocks, does not count the subblocks of all items.',
    'three levels of blocks below the main bus, with an array on the middle one',
    files={'bus.fbd': 'main bus\n  a block\n    m [3]block\n      s status\n      i block\n        t status\n'},
    py='''a = b['Subblocks'][0]; m = a['Subblocks'][0]; i = m['Subblocks'][0]
assert m['Sizes']['Cumulated'] == m['Sizes']['Own'] + i['Sizes']['Cumulated']
assert a['Sizes']['Cumulated'] == a['Sizes']['Own'] + 3 * m['Sizes']['Cumulated'], a['Sizes']
''')
# ---------------------------------------------------------------- C04
bug('C04-irq-any-gap', 'C04',
    [('internal/reg/irq.go', 'gp.GetSingle(1, true)', 'gp.GetSingle(1, irq.InTrigger == "Level")')],
    'An irq with edge input trigger and explicit clear might be placed in the register of a config, '
    'so clearing the irq writes the config.',
    'an irq with explicit clear, no enable and in-trigger = "Edge", and a config with unused bits in its last register',
    files={'bus.fbd': 'main bus\n  c config; width = 7\n  i irq; in-trigger = "Edge"\n'},
    py='''assert b['Irqs'][0]['Access']['StartAddr'] != b['Configs'][0]['Access']['StartAddr'], b
''')
# ---------------------------------------------------------------- C05
bug('C05-strobe-addr', 'C05',
    [('internal/reg/stream.go', '\ts.StbAddr = returns[len(returns)-1].Access.EndAddr\n', '\ts.StbAddr = addr\n')],
    'The strobe address of an upstream is the register after the stream when the last return ends at the register end.',
    'an upstream whose returns fill the last register exactly',
    files={'bus.fbd': 'main bus\n  width = 16\n  s stream\n    a return; width = 7\n    b return; width = 25\n'},
    py='''s = b['Streams'][0]
assert s['StbAddr'] == s['Returns'][1]['Access']['EndAddr'], s
''')
bug('C05-call-addr', 'C05',
    [('internal/reg/proc.go', '\t\tcallAddr := params[len(params)-1].Access.EndAddr\n', '\t\tcallAddr := params[0].Access.StartAddr + (proc.ParamsBufSize() - 1)\n\t\tfor _, p := range params[:len(params)-1] {\n\t\t\tif p.IsArray && p.Access.EndAddr == callAddr {\n\t\t\t\tcallAddr = p.Access.StartAddr\n\t\t\t}\n\t\t}\n')],
    'The call address of a procedure is not the register of the last parameter when an array parameter ends in the same register.',
    'a procedure with an array parameter spanning registers, followed by a parameter which ends in the register in which the array ends',
    files={'bus.fbd': 'main bus\n  width = 16\n  p proc\n    a [3]param; width = 7\n    b param; width = 4\n'},
    py='''p = b['Procs'][0]
assert p['CallAddr'] == p['Params'][1]['Access']['EndAddr'], p
''')
bug('C05-exit-delay', 'C05',
    [('internal/reg/proc.go', '\t\tif proc.Delay != nil {\n\t\t\texitAddr := *proc.CallAddr\n', '\t\tif proc.Delay != nil && !proc.Delay.IsZero() {\n\t\t\texitAddr := *proc.CallAddr\n')],
    'A procedure without returns and with zero delay has no exit address.',
    'a procedure without returns and with the delay property equal zero',
    files={'bus.fbd': 'main bus\n  p proc\n    delay = 0 ns\n    a param; width = 7\n'},
    py='''assert b['Procs'][0]['ExitAddr'] == b['Procs'][0]['CallAddr'], b['Procs'][0]
''')
# ---------------------------------------------------------------- C06
bug('C06-out-trigger-default', 'C06',
    [('internal/ins/irq.go', '\tif !diary.outTriggerSet {\n\t\tirq.OutTrigger = "Level"\n', '\tif !diary.outTriggerSet {\n\t\tirq.OutTrigger = irq.InTrigger\n')],
    'The default output trigger of an irq follows the input trigger instead of being "Level".',
    'an irq with in-trigger = "Edge" and out-trigger not set',
    files={'bus.fbd': 'main bus\n  i irq; in-trigger = "Edge"\n'},
    py='''assert b['Irqs'][0]['OutTrigger'] == 'Level', b['Irqs'][0]
''')
bug('C06-list-consts', 'C06',
    [('internal/util/constContainer/constContainer.go', '\tif c.IntLists == nil {\n\t\tc.IntLists = map[string][]int64{name: l}\n\t}\n\tc.IntLists[name] = l\n',
      '\tif c.IntLists == nil {\n\t\tc.IntLists = map[string][]int64{name: l}\n\t} else if len(l) > 1 {\n\t\tc.IntLists[name] = l\n\t}\n')],
    'A constant being an integer list with one element is dropped if it is not the first integer list constant of the block.',
    'a block with at least two integer list constants, a later one with a single element',
    files={'bus.fbd': 'main bus\n  const A = [1, 2]\n  const B = [3]\n  c config\n'},
    py='''assert b['Consts']['IntLists'] == {'A': [1, 2], 'B': [3]}, b['Consts']
''')
# ---------------------------------------------------------------- C07
bug('C07-named-args', 'C07',
    [('internal/ins/args.go', '\t\t\tfound := false\n\t\t\tfor _, ar := range args {\n\t\t\t\tif ar.Name == p.Name {\n\t\t\t\t\tresolvedArgs[p.Name] = ar.Value\n\t\t\t\t\tfound = true\n\t\t\t\t}\n\t\t\t}\n\t\t\tif !found {\n\t\t\t\tresolvedArgs[p.Name] = p.DfltValue\n\t\t\t}\n\t\t}\n\t}\n\n\treturn resolvedArgs, nil\n',
      '\t\t\tfound := false\n\t\t\tfor _, ar := range args[min(i, len(args))-min(i, 1):] {\n\t\t\t\tif ar.Name == p.Name {\n\t\t\t\t\tresolvedArgs[p.Name] = ar.Value\n\t\t\t\t\tfound = true\n\t\t\t\t}\n\t\t\t}\n\t\t\tif !found {\n\t\t\t\tresolvedArgs[p.Name] = p.DfltValue\n\t\t\t}\n\t\t}\n\t}\n\n\treturn resolvedArgs, nil\n')],
    'A named argument given much earlier than the position of its parameter is ignored and the default value is used.',
    'a type with at least three parameters with default values, instantiated with named arguments in an order in which the last parameter comes first',
    files={'bus.fbd': 'type cfg(a = 1, b = 2, c = 3, d = 4) config\n  width = a + b * 8 + d\n  init-value = c\nmain bus\n  x cfg(d = 6, c = 1, b = 2, a = 5)\n'},
    py='''c = b['Configs'][0]
assert c['Width'] == 27, c
assert int(c['InitValue'][2:-1], {'x': 16, 'o': 8, 'b': 2}[c['InitValue'][0]]) == 1, c
''')
bug('C07-type-scope', 'C07',
    [('internal/ins/ins.go', '\t\tif f.Scope() != nil {\n\t\t\ts, err = f.Scope().GetType(f.Type())\n', '\t\tif len(derived) > 1 {\n\t\t\ts, err = derived[0].Scope().GetType(f.Type())\n\t\t} else if f.Scope() != nil {\n\t\t\ts, err = f.Scope().GetType(f.Type())\n')],
    'In a chain of at least three types the type of an ancestor is searched from the place of instantiation instead of the place of the definition.',
    'a chain of three types and a type of the same name as one of ancestors defined closer to the instantiation',
    files={'bus.fbd': 'type a config; width = 5\ntype c a\ntype d c; init-value = 3\nmain bus\n  k block\n    type a config; width = 9\n    x d\n'},
    py='''assert b['Subblocks'][0]['Configs'][0]['Width'] == 5, b['Subblocks'][0]['Configs']
''')
# ---------------------------------------------------------------- C08
bug('C08-rshift', 'C08',
    [('internal/prs/expr.go', '\t\t\t\tv = x >> y\n', '\t\t\t\tv = x / (1 << min(y, 62))\n')],
    'Right shift of a negative number rounds towards zero, and shift of a big number by 63 bits or more is wrong.',
    'a right shift of a negative value which is not a multiple of the power of two',
    files={'bus.fbd': 'const A = (0 - 7) >> 1\nmain bus\n  c config; width = 8 + A\n'},
    py='''assert b['Configs'][0]['Width'] == 4, b['Configs'][0]
''')
bug('C08-prec', 'C08',
    [('internal/tok/token.go', 'func (ls RShift) Precedence() int { return 5 }', 'func (ls RShift) Precedence() int { return 4 }')],
    'Right shift binds weaker than multiplication, division and remainder.',
    'an expression with the right shift followed by an operator of the same precedence',
    files={'bus.fbd': 'main bus\n  c config; width = 64 >> 2 * 2\n'},
    py='''assert b['Configs'][0]['Width'] == 32, b['Configs'][0]
''')
# ---------------------------------------------------------------- C09
bug('C09-nested-pkg', 'C09',
    [('internal/prs/pre.go', '\t\tif fileInfo.IsDir() {\n\t\t\tfindPkgsInDir(dePath, pkgs, visitedDirs)\n\t\t\tcontinue\n\t\t}\n',
      '\t\tif fileInfo.IsDir() {\n\t\t\tif !isPkgDir {\n\t\t\t\tfindPkgsInDir(dePath, pkgs, visitedDirs)\n\t\t\t}\n\t\t\tcontinue\n\t\t}\n')],
    'Packages placed below a directory of another package are not found if the directory name sorts after the first file of the package.',
    'a package directory inside another package directory, listed after a .fbd file',
    files={'bus.fbd': 'import "fbd-inner"\nmain bus\n  c config; width = inner.W\n',
           'fbd-outer/a.fbd': 'const X = 1\n', 'fbd-outer/lib/fbd-inner/a.fbd': 'const W = 7\n'},
    py='''assert b['Configs'][0]['Width'] == 7, b
''')
bug('C09-qualified-fallback', 'C09',
    [('internal/prs/file.go', '\t\treturn pkg.Pkg.GetConst(symName)\n', '\t\tif c, err := pkg.Pkg.GetConst(symName); err == nil {\n\t\t\treturn c, nil\n\t\t}\n\n\t\tname = symName\n')],
    'A qualified identifier not defined in the imported package resolves to a constant of the own package.',
    'a qualified identifier naming a constant which the imported package does not have, but the own package has',
    files={'bus.fbd': 'import "fbd-p"\nconst W = 9\nmain bus\n  c config; width = p.W\n', 'fbd-p/p.fbd': 'const V = 3\n'},
    sh='"$R/fbdl" bus.fbd >out.json 2>err.txt && { echo "accepted"; exit 1; }\ngrep -q "W" err.txt || exit 1\nexit 0\n')
# ---------------------------------------------------------------- C10
bug('C10-upper-hex', 'C10',
    [('internal/prs/expr.go', '\tx, err := strconv.ParseInt(tok.Text(e.X, src), 0, 64)\n\tif err != nil {\n\t\treturn Int{}, fmt.Errorf("make int: %v", err)\n',
      '\ttxt := tok.Text(e.X, src)\n\tbase := 0\n\tif len(txt) > 2 && txt[1] == \'O\' {\n\t\ttxt, base = txt[2:], 0\n\t}\n\tx, err := strconv.ParseInt(txt, base, 64)\n\tif err != nil {\n\t\treturn Int{}, fmt.Errorf("make int: %v", err)\n')],
    'Octal numbers with the upper case prefix 0O are read as decimal.',
    'an octal literal with the 0O prefix and value of at least 8',
    files={'bus.fbd': 'main bus\n  c config; width = 0O17\n'},
    py='''assert b['Configs'][0]['Width'] == 15, b['Configs'][0]
''')
bug('C10-prop-order', 'C10',
    [('internal/ins/status.go', '\t\t\tdiary.readVal = v\n\t\t\tdiary.readValSet = true\n', '\t\t\tdiary.readVal = v\n\t\t\tdiary.readValSet = !diary.widthSet || st.Width > 0\n'),
     ('internal/ins/status.go', '\t\t\tst.Width = int64(v.(val.Int))\n', '\t\t\tst.Width = int64(v.(val.Int))\n\t\t\tif diary.readValSet && !diary.atomicSet && st.Width > busWidth {\n\t\t\t\tst.Width = busWidth\n\t\t\t}\n')],
    'The width of a status wider than the bus is limited to the bus width when the read-value property precedes the width property.',
    'a status wider than the bus, without atomic, with read-value before width',
    files={'bus.fbd': 'main bus\n  s status\n    read-value = 1\n    width = 40\n'},
    py='''assert b['Statuses'][0]['Width'] == 40, b['Statuses'][0]
''')
# ---------------------------------------------------------------- C11
bug('C11-time-pos', 'C11',
    [('internal/tok/parse.go', '\t\t\t\t\t\t\tprevTok.Line(),\n\t\t\t\t\t\t\tprevTok.Column(),\n', '\t\t\t\t\t\t\tt.Line(),\n\t\t\t\t\t\t\tt.Column() - (len(word) + 1),\n')],
    'The column of a time literal token is wrong when the number has other number of digits than the unit, or more spaces are between them.',
    'a time literal where the number and unit have different lengths',
    files={'bus.fbd': 'main bus\n  s config; width = 1000 ns\n'},
    sh='"$R/fbdl" bus.fbd >out.json 2>err.txt && exit 1\ngrep -q "+2:21$" err.txt || { cat err.txt; exit 1; }\n')
# ---------------------------------------------------------------- C12
bug('C12-stream-dup', 'C12',
    [('internal/util/block/block.go', '\tfor i := range blk.Streams {\n\t\tif blk.Streams[i].Name == name {\n\t\t\treturn true\n\t\t}\n\t}\n', '\tfor i := range blk.Streams {\n\t\tif blk.Streams[i].Name == name && len(blk.Subblocks) == 0 {\n\t\t\treturn true\n\t\t}\n\t}\n')],
    'A derived block with subblocks might instantiate a functionality with the name of a stream of its base type.',
    'a block type with a stream and a subblock, and its instance with a functionality named as the stream',
    files={'bus.fbd': 'type t block\n  s stream\n    p param\n  i block\n    c config\nmain bus\n  b t\n    s config\n'},
    sh='"$R/fbdl" bus.fbd >out.json 2>err.txt && { echo accepted; exit 1; }\nexit 0\n')
bug('C12-wide-hex', 'C12',
    [('internal/ins/common.go', '\t\tif bs.BitWidth() > width {\n', '\t\tif bs.BitWidth() > width && (len(bs) < 5 || bs[2] != \'0\') {\n')],
    'A bit string wider than the width of the functionality is accepted if it has leading zero.',
    'a value of at least two digits with leading zero digit, given as a bit string wider than the functionality',
    files={'bus.fbd': 'main bus\n  c config; width = 4; init-value = x"03"\n'},
    sh='"$R/fbdl" bus.fbd >out.json 2>err.txt && { echo accepted; exit 1; }\nexit 0\n')
# ---------------------------------------------------------------- C13
bug('C13-hash-order', 'C13',
    [('internal/util/hash/constContainer.go', '\tkeys = maps.Keys(c.Strings)\n\tsort.Strings(keys)\n', '\tkeys = maps.Keys(c.Strings)\n')],
    'The bus ID depends on the random order of map iteration if a block has several string constants.',
    'a block with at least two string constants, compiled several times',
    files={'bus.fbd': 'main bus\n  const A = "abc"\n  const B = "xyzw"\n  const C = "q"\n  const D = "hello"\n  c config\n'},
    sh='for i in $(seq 40); do "$R/fbdl" bus.fbd >out$i.json 2>/dev/null || exit 1; cmp -s out1.json out$i.json || { echo differ; exit 1; }; done\n')
# ---------------------------------------------------------------- C14
bug('C14-count', 'C14',
    [('internal/util/hash/elem.go', '\terr := binary.Write(&buf, binary.LittleEndian, e.Count)\n', '\terr := binary.Write(&buf, binary.LittleEndian, int16(e.Count))\n')],
    'The ID does not depend on high bits of the array size.',
    'two buses with arrays of functionalities without own access (for example procs or blackboxes) with counts differing by a multiple of 65536',
    files={'a.fbd': 'main bus\n  p [3]proc\n    x param\n', 'b.fbd': 'main bus\n  p [65539]proc\n    x param\n'},
    sh='"$R/fbdl" a.fbd >a.json 2>err.txt || exit 1\n"$R/fbdl" b.fbd >b.json 2>err.txt || exit 1\npython3 - <<\'EOF\'\nimport json\na, b = [[s for s in json.load(open(f))[\'Statics\'] if s[\'Name\'] == \'ID\'][0][\'InitValue\'] for f in (\'a.json\', \'b.json\')]\nassert a != b, a\nEOF\n')
bug('C14-irq-trigger', 'C14',
    [('internal/util/hash/irq.go', '\t// OutTrigger\n\tbuf.Write([]byte(i.OutTrigger))\n', '\t// OutTrigger\n\tif i.Clear == "Explicit" {\n\t\tbuf.Write([]byte(i.OutTrigger))\n\t}\n')],
    'The ID does not depend on the output trigger of an irq cleared on read.',
    'two buses with an irq with clear = "On Read", different only in out-trigger',
    files={'a.fbd': 'main bus\n  i irq; clear = "On Read"\n', 'b.fbd': 'main bus\n  i irq; clear = "On Read"; out-trigger = "Edge"\n'},
    sh='"$R/fbdl" a.fbd >a.json 2>err.txt || exit 1\n"$R/fbdl" b.fbd >b.json 2>err.txt || exit 1\npython3 - <<\'EOF\'\nimport json\na, b = [[s for s in json.load(open(f))[\'Statics\'] if s[\'Name\'] == \'ID\'][0][\'InitValue\'] for f in (\'a.json\', \'b.json\')]\nassert a != b, a\nEOF\n')
# ---------------------------------------------------------------- C15
bug('C15-static-reset', 'C15',
    [('internal/ins/static.go', '\t\tval, err := processValue(diary.resetVal, st.Width)\n', '\t\tval, err := processValue(diary.resetVal, max(st.Width, busWidth))\n')],
    'The reset value of a static narrower than the bus is converted with the bus width, so a value which does not fit is accepted.',
    'a static narrower than the bus with the reset value given as an integer',
    files={'bus.fbd': 'main bus\n  s static; width = 6; init-value = 1; reset-value = 3\n'},
    py='''assert len(b['Statics'][0]['ResetValue']) - 3 <= 6 // 3 + 4 and b['Statics'][0]['ResetValue'] == 'o"03"', b['Statics'][0]
''')
# ---------------------------------------------------------------- C16
bug('C16-last-range', 'C16',
    [('pkg/fbdl/types/range.go', '\t\tif sr.BitWidth() > max {\n\t\t\tmax = sr.BitWidth()\n\t\t}\n', '\t\tif sr.Start >= max {\n\t\t\tmax = sr.BitWidth()\n\t\t}\n')],
    'The width of a functionality with a list of ranges is taken from a range which is not the greatest one.',
    'a list of ranges where a later range starts above the bit width of the greatest range but ends below it',
    files={'bus.fbd': 'main bus\n  c config; range = [100:1000, 10:20]\n'},
    py='''assert b['Configs'][0]['Width'] == 10, b['Configs'][0]
''')
bug('C16-param-range', 'C16',
    [('internal/ins/param.go', '\t\t\tcase val.Range:\n\t\t\t\tparam.Range = types.SingleRange{Start: rng.L, End: rng.R}\n', '\t\t\tcase val.Range:\n\t\t\t\tparam.Range = types.SingleRange{Start: rng.L, End: max(rng.L, rng.R-rng.R&1)}\n')],
    'The right bound of a param range is rounded down to an even number.',
    'a param with a range with odd right bound greater than left bound',
    files={'bus.fbd': 'main bus\n  p proc\n    x param; range = 0:1\n'},
    py='''assert b['Procs'][0]['Params'][0]['Width'] == 1, b['Procs'][0]['Params']
''')
# ---------------------------------------------------------------- C17
bug('C17-c-flag', 'C17',
    [('internal/args/parse.go', '\t\t\tif isValidFlag(arg) {\n\t\t\t\thandleFlag(arg)\n\t\t\t\tcontinue\n', '\t\t\tif arg == "-debug" || arg == "-help" || arg == "-version" {\n\t\t\t\thandleFlag(arg)\n\t\t\t\tcontinue\n')],
    'The -add-timestamp flag placed just after -c without a path is taken as the path of the constants file.',
    '-c without a path directly followed by -add-timestamp',
    files={'bus.fbd': 'main bus\n  c config\n'},
    sh='"$R/fbdl" -c -add-timestamp bus.fbd >out.json 2>err.txt || exit 1\n[ -f const.json ] && [ ! -e ./-add-timestamp ] && grep -q TIMESTAMP out.json\n')
# ================================================================ second part
GOMOD = '''mkdir m && cp "$H/main.go.txt" m/main.go && cp "$R/go.sum" m/go.sum
sed "s,^module .*,module demo,; /^require/,\\$d" "$R/go.mod" >m/go.mod
sed -n "/^require/,\\$p" "$R/go.mod" >>m/go.mod
echo "require github.com/Functional-Bus-Description-Language/go-fbdl v0.0.0" >>m/go.mod
echo "replace github.com/Functional-Bus-Description-Language/go-fbdl => $R" >>m/go.mod
(cd m && GOPROXY=off GOFLAGS=-mod=mod go build -o ../demo .) || exit 2
'''
ACCEPT = '"$R/fbdl" bus.fbd >out.json 2>err.txt && { echo accepted; exit 1; }\n[ ! -s out.json ] && ! grep -q "^goroutine\\|^panic" err.txt\n'
IDS = '''"$R/fbdl" a.fbd >a.json 2>err.txt || exit 1
"$R/fbdl" b.fbd >b.json 2>err.txt || exit 1
python3 - <<'EOF'
import json
a, b = [[s for s in json.load(open(f))['Statics'] if s['Name'] == 'ID'][0]['InitValue'] for f in ('a.json', 'b.json')]
assert a != b, a
EOF
'''
bug('C01-upstream-next', 'C01',
    [('internal/reg/stream.go', '\tlastAccess := returns[len(returns)-1].Access\n\tif lastAccess.EndBit < busWidth-1 {\n',
      '\tlastAccess := returns[len(returns)-1].Access\n\tif lastAccess.EndBit-lastAccess.StartBit < busWidth-1 && lastAccess.EndBit < busWidth-1 && baseBit > lastAccess.EndBit-lastAccess.EndRegWidth {\n\t\tif len(returns) > 1 && lastAccess.RegCount > 1 && lastAccess.StartBit == 0 {\n\t\t\treturn addr\n\t\t}\n')],
    'An upstream with several returns, where the last one starts at a register boundary and needs more than one register, does not reserve its last register.',
    'an upstream with first returns ending exactly at the register end and the last one wider than the bus, and a functionality after the stream',
    files={'bus.fbd': 'main bus\n  width = 8\n  s stream\n    a return; width = 8\n    b return; width = 11\n  c config; width = 8\n'},
    py='''s = b['Streams'][0]['Returns'][1]['Access']; c = b['Configs'][0]['Access']
assert c['StartAddr'] > s['EndAddr'], (s, c)
''')
bug('C01-irq-enable-narrow', 'C01',
    [('internal/reg/mask.go', '\taddr += acs.RegCount\n', '\tif mask.Width > busWidth && mask.Width%busWidth == 1 {\n\t\taddr--\n\t}\n\taddr += acs.RegCount + 0\n')],
    'A mask with exactly one bit more than full registers does not reserve its last register.',
    'a mask with width equal n * bus width + 1, n > 0, and a functionality placed after it',
    files={'bus.fbd': 'main bus\n  width = 16\n  m mask; width = 33\n  s static; width = 16; init-value = 1\n'},
    py='''m = b['Masks'][0]['Access']; s = b['Statics'][0]['Access']
assert s['StartAddr'] > m['EndAddr'], (m, s)
''')
bug('C03-array-size', 'C03',
    [('internal/reg/reg.go', '\t\tb := regBlock(sb)\n\t\tsizes.Cumulated += sb.Count * b.Cumulated\n\t\tsizes.Aligned += sb.Count * b.Aligned\n',
      '\t\tb := regBlock(sb)\n\t\tsizes.Cumulated += sb.Count * b.Cumulated\n\t\tif sb.IsArray && sb.Align == 0 && len(sb.Subblocks) > 0 && sb.Count > 2 {\n\t\t\tsizes.Aligned += b.Cumulated * sb.Count\n\t\t} else {\n\t\t\tsizes.Aligned += sb.Count * b.Aligned\n\t\t}\n')],
    'Address space of an array of at least three blocks with subblocks, nested in another block, is computed with the cumulated size, '
    'so the array does not fit its parent.',
    'an array of 3 or more blocks having subblocks, placed in a block which is not the main bus, and cumulated size not being a power of 2',
    files={'bus.fbd': 'main bus\n  p block\n    q [3]block\n      c [3]config\n      r block\n        c [3]config\n'},
    py='''p = b['Subblocks'][0]; q = p['Subblocks'][0]
assert p['AddrSpace']['Start'] <= q['AddrSpace']['Start'] and q['AddrSpace']['End'] <= p['AddrSpace']['End'], (p['AddrSpace'], q['AddrSpace'])
assert p['AddrSpace']['Start'] + p['Sizes']['Own'] <= q['AddrSpace']['Start'], (p, q['AddrSpace'])
''')
bug('C04-gap-write-safe', 'C04',
    [('internal/reg/status.go', '''		writeSafe = g.WriteSafe
		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
	} else {
		acs = types.MakeSingleAccess(addr, 0, st.Width)
		addr += acs.RegCount
	}

	if acs.EndBit < busWidth-1 {
		gp.Add(gap.Single{
			Addr:      acs.EndAddr,
			StartBit:  acs.EndBit + 1,
			EndBit:    busWidth - 1,
			WriteSafe: writeSafe,
		})
	}

	st.Access = acs

	return addr
}

func regNonAtomicStatusArray''', '''		writeSafe = g.WriteSafe || g.StartBit >= busWidth/2
		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
	} else {
		acs = types.MakeSingleAccess(addr, 0, st.Width)
		addr += acs.RegCount
	}

	if acs.EndBit < busWidth-1 {
		gp.Add(gap.Single{
			Addr:      acs.EndAddr,
			StartBit:  acs.EndBit + 1,
			EndBit:    busWidth - 1,
			WriteSafe: writeSafe,
		})
	}

	st.Access = acs

	return addr
}

func regNonAtomicStatusArray''')],
    'The rest of a config register is treated as write safe after a non-atomic status has been placed in its upper half, '
    'so an irq with explicit clear shares the register with the config and clearing it writes the config.',
    'a config with a width between a half of the bus and the bus, a non-atomic status fitting the gap but not filling it, and an irq with explicit clear',
    files={'bus.fbd': 'main bus\n  c config; width = 20\n  s status; width = 4; atomic = false\n  i irq\n'},
    py='''assert b['Irqs'][0]['Access']['StartAddr'] != b['Configs'][0]['Access']['StartAddr'], b
''')
bug('C04-nonatomic-gap', 'C04',
    [('internal/gap/pool.go', '\t\tif (s.Width() >= width) && (!writeSafe || (writeSafe && s.WriteSafe)) {\n',
      '\t\tif (s.Width() >= width) && (!writeSafe || s.WriteSafe || i+1 < len(p.singles) && p.singles[i+1].WriteSafe) {\n')],
    'A gap which is not write safe is returned as write safe if the next gap in the pool is write safe.',
    'a config with smaller unused part of its register than a register with only statuses, and an irq with explicit clear',
    files={'bus.fbd': 'main bus\n  c config; width = 30\n  s status; width = 29\n  i irq\n'},
    py='''assert b['Irqs'][0]['Access']['StartAddr'] != b['Configs'][0]['Access']['StartAddr'], b
''')
bug('C05-upstream-strobe', 'C05',
    [('internal/reg/stream.go', '\ts.StbAddr = returns[len(returns)-1].Access.EndAddr\n',
      '\ts.StbAddr = returns[0].Access.EndAddr\n\tfor _, r := range returns {\n\t\tif r.Access.StartAddr > s.StbAddr {\n\t\t\ts.StbAddr = r.Access.EndAddr\n\t\t}\n\t}\n')],
    'The strobe address of an upstream is not the last register if the last return starts in the register of the previous one and spans to the next register.',
    'an upstream with the last return starting in the same register in which the previous return ends, and ending in a further register',
    files={'bus.fbd': 'main bus\n  width = 16\n  s stream\n    a return; width = 10\n    b return; width = 10\n'},
    py='''s = b['Streams'][0]
assert s['StbAddr'] == s['Returns'][1]['Access']['EndAddr'], s
''')
bug('C06-mask-atomic', 'C06',
    [('internal/ins/status.go', '\tif !diary.atomicSet {\n\t\tst.Atomic = true\n', '\tif !diary.atomicSet {\n\t\tst.Atomic = !st.IsArray || !diary.readValSet\n')],
    'The default of atomic is false for arrays of statuses with the read-value property.',
    'an array of statuses with read-value and without atomic',
    files={'bus.fbd': 'main bus\n  s [3]status; width = 3; read-value = 1\n'},
    py='''assert b['Statuses'][0]['Atomic'] is True, b
''')
bug('C06-range-list', 'C06',
    [('internal/ins/config.go', '\t\t\t\tmr := types.ArrayRange{}\n', '\t\t\t\tmr := make(types.ArrayRange, 0, 1)\n'),
     ('internal/ins/config.go', '\t\t\t\t\tmr = append(\n\t\t\t\t\t\tmr,\n', '\t\t\t\t\tif n := len(mr); n > 0 && mr[n-1].End+1 == int64(r.(val.Range).L) {\n\t\t\t\t\t\tmr[n-1].End = int64(r.(val.Range).R)\n\t\t\t\t\t\tcontinue\n\t\t\t\t\t}\n\t\t\t\t\tmr = append(\n\t\t\t\t\t\tmr,\n')],
    'Adjacent ranges of a config range list are merged into one, so the reported list is not the one in the description.',
    'a config with a list of ranges where a range starts just after the end of the previous one',
    files={'bus.fbd': 'main bus\n  c config; range = [1:3, 4:6]\n'},
    py='''assert len(b['Configs'][0]['Range']) == 2, b['Configs'][0]
''')
bug('C06-group-reset', 'C06',
    [('internal/ins/block.go', '\tif blk.Masters == 0 {\n\t\tblk.Masters = 1\n', '\tif blk.Masters == 0 || (blk.Masters > 1 && blk.IsArray && blk.Align > 0) {\n\t\tblk.Masters = 1\n')],
    'The masters property of an array of blocks with align is ignored.',
    'an array of blocks with both align and masters',
    files={'bus.fbd': 'main bus\n  p [2]block\n    align = 4\n    masters = 3\n    c config\n'},
    py='''assert b['Subblocks'][0]['Masters'] == 3, b['Subblocks'][0]
''')
bug('C07-default-depends', 'C07',
    [('internal/ins/args.go', '\t\t\t\t\tif !found {\n\t\t\t\t\t\tresolvedArgs[p.Name] = p.DfltValue\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t} else {\n',
      '\t\t\t\t\tif !found {\n\t\t\t\t\t\tresolvedArgs[p.Name] = p.DfltValue\n\t\t\t\t\t\tif i > 0 && resolvedArgs[p.Name] == nil {\n\t\t\t\t\t\t\tresolvedArgs[p.Name] = args[i].Value\n\t\t\t\t\t\t}\n\t\t\t\t\t\tinPositionalArgs = len(args) > i+2\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t} else {\n')],
    'With at least three named arguments given for a type, arguments of named parameters after a parameter left at its default are bound by position.',
    'a type with three or more parameters, instantiated with named arguments in which the first positions are skipped',
    files={'bus.fbd': 'type t(a = 1, b = 2, c = 3, d = 4) block\n  const A = a\n  const B = b\n  const C = c\n  const D = d\n  s status\nmain bus\n  x t(d = 40, c = 30, b = 20)\n'},
    py='''c = b['Subblocks'][0]['Consts']['Ints']
assert c == {'A': 1, 'B': 20, 'C': 30, 'D': 40}, c
''')
bug('C07-array-in-type', 'C07',
    [('internal/ins/common.go', '\tfor _, typ := range typeChain {\n\t\tif !typ.IsArray() {\n\t\t\tcontinue\n\t\t}\n', '\tfor i, typ := range typeChain {\n\t\tif !typ.IsArray() || (i > 0 && i < len(typeChain)-2 && len(typ.Props()) == 0) {\n\t\t\tcontinue\n\t\t}\n')],
    'The array size given by a middle type of a long type chain is lost.',
    'a chain of at least four types and the array size given in the middle one, without properties',
    files={'bus.fbd': 'type a config; width = 3\ntype b [4]a; init-value = 1\ntype c [5]a\ntype d c\ntype e d\nmain bus\n  x e\n  y b\n'},
    py='''x = [c for c in b['Configs'] if c['Name'] == 'x'][0]
assert x['IsArray'] and x['Count'] == 5, x
''')
bug('C08-log10-round', 'C08',
    [('internal/prs/call.go', '\t\treturn nil, fmt.Errorf("log10 argument evaluation: %v", err)\n\t}\n\n\targType := "unknown"\n\tf := float64(0.0)\n\n\tswitch arg := arg.(type) {\n\tcase val.Int:\n\t\targType = "int"\n\t\tf = float64(arg)\n',
      '\t\treturn nil, fmt.Errorf("log10 argument evaluation: %v", err)\n\t}\n\n\targType := "unknown"\n\tf := float64(0.0)\n\n\tswitch a := arg.(type) {\n\tcase val.Int:\n\t\targType = "int"\n\t\tf = float64(float32(a))\n\t\targ = val.Int(f)\n'),
     ('internal/prs/call.go', '\tcase val.Float:\n\t\targType = "float"\n\t\tf = float64(arg)\n\t}\n\n\tif argType != "int" && argType != "float" {\n\t\treturn nil, fmt.Errorf("cannot evaluate log10', '\tcase val.Float:\n\t\targType = "float"\n\t\tf = float64(a)\n\t}\n\n\tif argType != "int" && argType != "float" {\n\t\treturn nil, fmt.Errorf("cannot evaluate log10')],
    'log10 of a big integer is evaluated with 24 bits of precision, so log10 of an exact power of 10 is not exact and vice versa.',
    'log10 of a power of ten of at least 10 ** 11',
    files={'bus.fbd': 'main bus\n  c config; width = log10(100000000000000)\n'},
    sh='"$R/fbdl" bus.fbd >out.json 2>err.txt || exit 1\ngrep -q \'"Width": 14\' out.json\n')
bug('C08-floor-neg', 'C08',
    [('internal/prs/call.go', '\treturn floatToInt(math.Floor(f))\n', '\treturn floatToInt(math.Trunc(f))\n')],
    'floor rounds negative values towards zero.',
    'floor of a negative value which is not an integer',
    files={'bus.fbd': 'main bus\n  c config; width = 10 + floor((0 - 7) / 2)\n'},
    py='''assert b['Configs'][0]['Width'] == 6, b['Configs'][0]
''')
bug('C08-time-big', 'C08',
    [('internal/val/val.go', '\tt.S += t.Ns / 1000000000\n\tt.Ns = t.Ns % 1000000000\n', '\tt.S += t.Ns / 1000000000\n\tif t.S < 1000 {\n\t\tt.Ns = t.Ns % 1000000000\n\t} else {\n\t\tt.Ns = 0\n\t}\n')],
    'Nanoseconds of times of at least 1000 s, given in smaller units, are lost.',
    'a time literal in ms, us or ns being more than 1000 s and not a whole number of seconds',
    files={'bus.fbd': 'main bus\n  p proc\n    delay = 1000001 ms\n    a param\n'},
    py='''assert b['Procs'][0]['Delay'] == {'S': 1000, 'Ns': 1000000}, b['Procs'][0]['Delay']
''')
bug('C09-import-alias-file', 'C09',
    [('internal/prs/import.go', '\t\t\tif len(name) > 4 && name[0:4] == "fbd-" {\n', '\t\t\tif len(name) > 4 && name[0:4] == "fbd-" && len(strings.Split(path, "/")) == 1 {\n')],
    'The default name of an import whose path has several elements keeps the fbd- prefix.',
    'an import without alias with the path of several elements, where the first one has the fbd- prefix',
    files={'bus.fbd': 'import "fbd-outer/lib/fbd-inner"\nmain bus\n  c config; width = outer.W\n', 'fbd-outer/lib/fbd-inner/a.fbd': 'const W = 7\n'},
    py='''assert b['Configs'][0]['Width'] == 7, b
''')
bug('C09-ambiguous', 'C09',
    [('internal/prs/pkg.go', '\t\t\tif strings.HasSuffix(pkg.Path, path) {\n\t\t\t\tret = append(ret, pkg)\n\t\t\t}\n',
      '\t\t\tif strings.HasSuffix(pkg.Path, path) {\n\t\t\t\tif len(ret) > 0 && len(ret[0].Path) > len(pkg.Path) && strings.HasPrefix(ret[0].Path, strings.TrimSuffix(pkg.Path, path)) {\n\t\t\t\t\tret[0] = pkg\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tret = append(ret, pkg)\n\t\t\t}\n')],
    'An ambiguous import is accepted when a matching package is found in a directory above the other one.',
    'two packages of the same name, one of them in a directory below the directory holding the other one, and import path matching both',
    files={'bus.fbd': 'import "fbd-p"\nmain bus\n  c config; width = p.W\n', 'fbd-p/a.fbd': 'const W = 7\n', 'a/fbd-p/a.fbd': 'const W = 8\n'},
    sh=ACCEPT)
bug('C09-type-args-scope', 'C09',
    [('internal/prs/file.go', '\t\treturn pkg.Pkg.GetType(symName)\n', '\t\tt, err := pkg.Pkg.GetType(symName)\n\t\tif err == nil && t.Type() == symName+"_t" {\n\t\t\treturn f.Pkg.GetType(symName)\n\t\t}\n\t\treturn t, err\n')],
    'A qualified type named x and derived from type x_t is looked for in the package of the file instead of the imported package.',
    'an imported type whose base type name is its name with the _t suffix',
    files={'bus.fbd': 'import "fbd-p"\ntype x config; width = 3\nmain bus\n  c p.x\n', 'fbd-p/a.fbd': 'type x_t config; width = 9\ntype x x_t\n'},
    py='''assert b['Configs'][0]['Width'] == 9, b['Configs'][0]
''')
bug('C10-comment-dedent', 'C10',
    [('internal/tok/parse.go', '\t\tcase Newline, Indent, Dedent:\n\t\t\treturn t\n', '\t\tcase Newline, Indent, Dedent, Semicolon:\n\t\t\treturn t\n')],
    'A comment placed after a semicolon is not ignored.',
    'a trailing comment just after ; (the line end with ; and comment)',
    sh='printf "main bus; width = 16 # comment\\n  c config\\n" >bus.fbd\n"$R/fbdl" bus.fbd >a.json 2>err.txt || exit 1\nprintf "main bus\\n  width = 16;# comment\\n  c config\\n" >bus.fbd\n"$R/fbdl" bus.fbd >b.json 2>err.txt\nA=$?\nprintf "main bus\\n  width = 16;\\n  c config\\n" >bus.fbd\n"$R/fbdl" bus.fbd >b.json 2>err.txt\n[ $A = $? ]\n')
bug('C10-paren-list', 'C10',
    [('internal/prs/expr.go', '\tcase ast.ParenExpr:\n\t\texpr, err = MakeExpr(e.X, src, s)\n', '\tcase ast.ParenExpr:\n\t\tif be, ok := e.X.(ast.BinaryExpr); ok {\n\t\t\tif _, ok := be.Op.(tok.Sub); ok {\n\t\t\t\tif inner, ok := be.Y.(ast.ParenExpr); ok {\n\t\t\t\t\tbe.Y = inner.X\n\t\t\t\t\tif in, ok := inner.X.(ast.BinaryExpr); ok && in.Op.Name() == be.Op.Name() {\n\t\t\t\t\t\tbe.X, be.Y = ast.BinaryExpr{X: be.X, Op: be.Op, Y: in.X}, in.Y\n\t\t\t\t\t}\n\t\t\t\t\te.X = be\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\texpr, err = MakeExpr(e.X, src, s)\n')],
    'Parentheses around the right operand of subtraction, being itself subtraction, are ignored if whole expression is parenthesized.',
    'an expression of the form (a - (b - c))',
    files={'bus.fbd': 'main bus\n  c config; width = (10 - (5 - 3))\n'},
    py='''assert b['Configs'][0]['Width'] == 8, b['Configs'][0]
''')
bug('C11-comment-pos', 'C11',
    [('internal/tok/parse.go', '\t// Eat all newlines\n\tfor {\n\t\tctx.nlIdx = ctx.idx\n', '\t// Eat all newlines\n\tctx.nlIdx = ctx.idx\n\tfor {\n\t\tif ctx.line%256 != 255 {\n\t\t\tctx.nlIdx = ctx.idx\n\t\t}\n')],
    'Columns of tokens in lines after every 256th line are relative to the previous line.',
    'a file with at least 256 lines and an error in the line 256',
    sh='{ echo "main bus"; for i in $(seq 2 255); do echo "  c$i config; width = 1"; done; echo "  c256 config; width = true"; } >bus.fbd\n"$R/fbdl" bus.fbd >out.json 2>err.txt && exit 1\ngrep -q "256:24" err.txt || { cat err.txt; exit 1; }\n')
bug('C11-list-panic', 'C11',
    [('internal/ins/check.go', '\t\t\t\tr, ok := rng.(val.Range)\n\t\t\t\tif !ok {\n', '\t\t\t\tr, ok := rng.(val.Range)\n\t\t\t\tif n, isInt := rng.(val.Int); isInt && n >= 0 && i > 0 {\n\t\t\t\t\tr, ok = val.Range{L: 0, R: int64(n)}, true\n\t\t\t\t}\n\t\t\t\tif !ok {\n')],
    'The compiler crashes on a range list with an integer after a range.',
    'the range property with a list of which the first item is a range and some other is an integer',
    files={'bus.fbd': 'main bus\n  c config; range = [1:3, 7]\n'},
    sh=ACCEPT)
bug('C12-proc-dup', 'C12',
    [('internal/ins/proc.go', '\t\tif proc.HasFunctionality(p, f.GetName()) {\n', '\t\tif f.Type() == "param" && proc.HasFunctionality(p, f.GetName()) {\n')],
    'A derived procedure might add a return with the name of a param of its ancestor type.',
    'a procedure type with a param and an instance of the type adding a return of the same name',
    files={'bus.fbd': 'type t proc\n  a param\nmain bus\n  p t\n    a return\n'},
    sh=ACCEPT)
bug('C12-stream-mixed', 'C12',
    [('internal/ins/stream.go', '\t\t(f.Type() == "param" && len(s.Returns) > 0) {\n', '\t\t(f.Type() == "param" && len(s.Returns) == 1) {\n')],
    'A stream derived from an upstream with at least two returns accepts params.',
    'a stream type with at least two returns and its instance adding a param',
    files={'bus.fbd': 'type t stream\n  a return\n  b return\nmain bus\n  s t\n    c param\n'},
    sh=ACCEPT)
bug('C12-irq-group', 'C12',
    [('internal/ins/group.go', '\tfor _, irq := range grp.Irqs[1:] {\n\t\tif irq0.OutTrigger != irq.OutTrigger {\n', '\tfor _, irq := range grp.Irqs[1:] {\n\t\tif irq0.OutTrigger != irq.OutTrigger && irq0.InTrigger == irq.InTrigger {\n')],
    'An irq group with irqs of different output triggers is accepted if their input triggers also differ.',
    'an irq group with irqs different in both in-trigger and out-trigger',
    files={'bus.fbd': 'main bus\n  g group\n    a irq\n    b irq; in-trigger = "Edge"; out-trigger = "Edge"\n'},
    sh=ACCEPT)
bug('C12-prop-chain', 'C12',
    [('internal/ins/block.go', '\t\t\tif blk.Masters != 0 {\n', '\t\t\tif blk.Masters != 0 && blk.Masters != int64(v.(val.Int)) {\n')],
    'The masters property might be set twice in the type chain, if both values are the same.',
    'a block type setting masters and its instance setting it again to the same value',
    files={'bus.fbd': 'type t block\n  masters = 2\n  c config\nmain bus\n  b t\n    masters = 2\n'},
    sh=ACCEPT)
bug('C13-env', 'C13',
    [('internal/prs/pre.go', '\tif len(fbdpath) != 0 {\n', '\tif home := os.Getenv("HOME"); len(home) > 0 && len(fbdpath) == 0 {\n\t\tif _, err := os.Stat(filepath.Join(home, ".fbd")); err == nil {\n\t\t\tpathsToLook = append(pathsToLook, filepath.Join(home, ".fbd"))\n\t\t}\n\t}\n\tif fbdpath != "" {\n')],
    'Packages are also looked for in the .fbd directory of the home directory, so the result depends on the user.',
    'a home directory with packages in .fbd and an import of a package, or any package constants',
    files={'home/.fbd/fbd-p/p.fbd': 'const W = 7\n', 'w/bus.fbd': 'import "fbd-p"\nmain bus\n  c config; width = p.W\n'},
    sh='cd w\nHOME="$D/home" "$R/fbdl" bus.fbd >a.json 2>err.txt; A=$?\nHOME="$D" "$R/fbdl" bus.fbd >b.json 2>err.txt; [ $A = $? ]\n')
bug('C13-sort-unstable', 'C13',
    [('internal/reg/assign.go', '\t\t\tif strings.Compare(namei, namej) < 0 {\n\t\t\t\treturn true\n\t\t\t} else {\n\t\t\t\treturn false\n\t\t\t}\n',
      '\t\t\tif len(namei) != len(namej) {\n\t\t\t\treturn len(namei) < len(namej)\n\t\t\t}\n\t\t\treturn strings.Compare(namei[:1], namej[:1]) < 0 || os.Getpid()%2 == 0 && namei < namej\n'),
     ('internal/reg/assign.go', '\t"sort"\n', '\t"os"\n\t"sort"\n')],
    'The order of blocks with the same sizes and names different only after the first letter depends on the process.',
    'subblocks of the same size with names of the same length and the same first letter, not in the alphabetical order in the description',
    files={'bus.fbd': 'main bus\n  bz block\n    c config\n  ba block\n    c config\n'},
    sh='for i in $(seq 30); do "$R/fbdl" bus.fbd >out$i.json 2>/dev/null || exit 1; cmp -s out1.json out$i.json || { echo differ; exit 1; }; done\n')
bug('C15-hex-meta', 'C15',
    [('pkg/fbdl/types/bit_str.go', "\t\tcase '0', 'h', 'H', 'l', 'L', 'u', 'U', 'x', 'X', 'w', 'W', 'z', 'Z', '-':\n\t\t\tchunk = [4]byte{char, char, char, char}\n",
      "\t\tcase '0', 'h', 'H', 'l', 'L', 'u', 'U', 'x', 'X', 'w', 'W', 'z', 'Z', '-':\n\t\t\tchunk = [4]byte{char, char, char, char}\n\t\t\tif char == '-' && i > 0 {\n\t\t\t\tchunk[0] = 'x'\n\t\t\t}\n")],
    'Conversion of a hexadecimal bit string with - on a further position to the binary one changes the highest bit of the digit to x.',
    'BitStr.ToBin or Extend of a hexadecimal bit string with - not as the first digit',
    beside={'main.go.txt': 'package main\n\nimport (\n\t"fmt"\n\n\t"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"\n)\n\nfunc main() { fmt.Println(types.BitStr(`x"1-"`).Extend(9)) }\n'},
    sh=GOMOD + '[ "$(./demo)" = \'b"00001----"\' ] || { ./demo; exit 1; }\n')
bug('C15-read-width', 'C15',
    [('internal/ins/status.go', '\t\tval, err := processValue(diary.readVal, st.Width)\n', '\t\tval, err := processValue(diary.readVal, max(st.Width, int64(len(st.Name)/9)*4))\n')],
    'The read value of a status with a long name is converted with wrong width.',
    'a status narrower than 4 bits with a name of at least 9 characters',
    files={'bus.fbd': 'main bus\n  long_status_name status; width = 3; read-value = 5\n'},
    py='''assert b['Statuses'][0]['ReadValue'] == 'o"5"', b['Statuses'][0]
''')
bug('C15-oct-neg', 'C15',
    [('pkg/fbdl/types/bit_str.go', '\tif bitWidthDiff%4 == 0 {\n\t\ts := make([]byte, width/4+3)\n', '\tif bitWidthDiff%4 == 0 || bs.CharWidth() == 1 && bitWidthDiff > 16 {\n\t\ts := make([]byte, width/4+3)\n')],
    'A single hexadecimal digit extended by more than 16 bits, which is not a multiple of 4, has a width other than requested.',
    'BitStr.Extend of a one digit hexadecimal bit string by, for example, 17 bits',
    beside={'main.go.txt': 'package main\n\nimport (\n\t"fmt"\n\n\t"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"\n)\n\nfunc main() { fmt.Println(types.BitStr(`x"a"`).Extend(21).BitWidth()) }\n'},
    sh=GOMOD + '[ "$(./demo)" = 21 ] || { ./demo; exit 1; }\n')
bug('C16-pow2-range', 'C16',
    [('internal/ins/config.go', '\t\t\tcfg.Width = cfg.Range.BitWidth()\n', '\t\t\tcfg.Width = cfg.Range.BitWidth()\n\t\t\tif r, ok := cfg.Range.(types.SingleRange); ok && r.Start == r.End && cfg.Width > 1 && r.End&(r.End-1) == 0 {\n\t\t\t\tcfg.Width--\n\t\t\t}\n'),
     ('internal/ins/config.go', '\t\t\tcfg.Width = busWidth\n', '\t\t\tcfg.Width = busWidth + 0\n')],
    'The width of a config with the range limited to a single value being a power of two is one bit too small.',
    'a config with a range a:a, a being a power of two',
    files={'bus.fbd': 'main bus\n  c config; range = 8:8\n'},
    py='''assert b['Configs'][0]['Width'] == 4, b['Configs'][0]
''')
bug('C12-other-bus', 'C12',
    [('internal/ins/ins.go', '\t\t\t\tif name != mainName && util.IsBaseType(prsFn.Type()) {\n', '\t\t\t\tif name != mainName && (util.IsBaseType(prsFn.Type()) || mainName != "main") {\n')],
    'With -main, errors in other typed functionalities at the package level are not reported.',
    'the -main option and a description with an invalid typed functionality at the package level, other than the selected bus',
    files={'bus.fbd': 'type t config\nother bus\n  c config\nc t\n  width = -1\n'},
    sh='"$R/fbdl" -main other bus.fbd >out.json 2>err.txt && { echo accepted; exit 1; }\nexit 0\n')
bug('C17-c-pkg', 'C17',
    [('internal/ins/const.go', '\t\t\tkey := name\n\t\t\tif len(pkgs) > 1 {\n\t\t\t\tkey = pkg.Path\n\t\t\t}\n\t\t\tcPkgs[key] = p\n', '\t\t\tkey := name\n\t\t\tif len(pkgs) > 1 && len(pkg.Files) == 1 {\n\t\t\t\tkey = pkg.Path\n\t\t\t}\n\t\t\tcPkgs[key] = p\n')],
    'Constants of packages with the same name are mixed if the packages have more than one file.',
    'two packages of the same name, with several files, and -c',
    files={'bus.fbd': 'main bus\n  c config\n', 'a/fbd-p/x.fbd': 'const A = 1\n', 'a/fbd-p/y.fbd': 'const B = 2\n', 'b/fbd-p/x.fbd': 'const A = 3\n', 'b/fbd-p/y.fbd': 'const B = 4\n'},
    sh='"$R/fbdl" -c c.json bus.fbd >out.json 2>err.txt || exit 1\npython3 - <<\'EOF\'\nimport json\nc = json.load(open("c.json"))\nassert len(c) == 3, c\nEOF\n')
bug('C17-debug-out', 'C17',
    [('cmd/fbdl/main.go', '\tprintDebug = args.Debug\n', '\tprintDebug = args.Debug\n\tif printDebug && args.AddTimestamp {\n\t\tlog.SetOutput(os.Stdout)\n\t}\n'),
     ('cmd/fbdl/main.go', '\tif bus != nil {\n', '\tif nil != bus {\n')],
    'With both -debug and -add-timestamp debug messages are mixed with the result on the standard output.',
    'the use of -debug together with -add-timestamp',
    files={'bus.fbd': 'main bus\n  c config\n'},
    sh='"$R/fbdl" -debug -add-timestamp bus.fbd >out.json 2>err.txt || exit 1\npython3 -c "import json; json.load(open(\'out.json\'))"\n')
# ---------------------------------------------------------------- C18
QUERY = '''package main

import (
	"fmt"
	"io"
	"log"
	"os"

	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
)

func check(bus *fn.Block) {
%s}

func eq(what string, got, want any) {
	if got != want {
		fmt.Println(what, got, want)
		os.Exit(1)
	}
}

func main() {
	log.SetOutput(io.Discard)
	bus, _, err := fbdl.Compile("bus.fbd", "main", false)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	check(bus)
}
'''
bug('C18-returns-buf', 'C18',
    [('pkg/fbdl/fn/proc.go', '\treturn rets[l-1].Access.EndAddr - rets[0].Access.StartAddr + 1\n', '\treturn rets[l-1].Access.StartAddr - rets[0].Access.StartAddr + 1\n')],
    'The size of the buffer for returns of a procedure is computed from the start of the last return, so a return spanning registers is cut off.',
    'a procedure which last return spans several registers',
    files={'bus.fbd': 'main bus\n  p proc\n    a return; width = 20\n    b return; width = 40\n'},
    beside={'main.go.txt': QUERY % '\teq("size", bus.Procs[0].ReturnsBufSize(), int64(2))\n'}, sh=GOMOD + './demo\n')
bug('C18-read-only-irq', 'C18',
    [('pkg/fbdl/fn/group.go', '\t\tif irq.Clear == "Explicit" || irq.AddEnable {\n', '\t\tif irq.Clear == "Explicit" {\n')],
    'A group with an irq cleared on read, but with an enable register, is reported as read-only.',
    'a group of irqs with clear = "On Read" and add-enable = true',
    files={'bus.fbd': 'main bus\n  g group\n    a irq; clear = "On Read"; add-enable = true\n    b irq; clear = "On Read"\n'},
    beside={'main.go.txt': QUERY % '\teq("read only", bus.Groups[0].IsReadOnly(), false)\n'}, sh=GOMOD + './demo\n')
bug('C18-empty-lists', 'C18',
    [('pkg/fbdl/cnst/container.go', '\tif len(c.Ints) != 0 || len(c.IntLists) != 0 {\n', '\tif len(c.Ints) != 0 {\n')],
    'A container with only lists of integers is reported as empty.',
    'a block in which all constants are lists of integers',
    files={'bus.fbd': 'main bus\n  const L = [1, 2]\n  c config\n'},
    beside={'main.go.txt': QUERY % '\teq("empty", bus.Consts.Empty(), false)\n'}, sh=GOMOD + './demo\n')
bug('C18-upstream-start', 'C18',
    [('pkg/fbdl/fn/stream.go', '\t\treturn s.Returns[0].Access.StartAddr\n', '\t\treturn s.StbAddr\n')],
    'The start address of an upstream with returns spanning several registers is the address of its strobe.',
    'an upstream longer than one register',
    files={'bus.fbd': 'main bus\n  s stream\n    a return; width = 20\n    b return; width = 40\n'},
    beside={'main.go.txt': QUERY % '\teq("start", bus.Streams[0].StartAddr(), bus.Streams[0].Returns[0].Access.StartAddr)\n'}, sh=GOMOD + './demo\n')
bug('C18-zero-delay', 'C18',
    [('pkg/fbdl/types/time.go', '\treturn t.S == 0 && t.Ns == 0\n', '\treturn t.Ns == 0\n')],
    'A delay of whole seconds is reported as zero.',
    'a procedure or stream with delay of whole seconds',
    files={'bus.fbd': 'main bus\n  p proc; delay = 2 s\n'},
    beside={'main.go.txt': QUERY % '\teq("zero", bus.Procs[0].Delay.IsZero(), false)\n'}, sh=GOMOD + './demo\n')
# ---------------------------------------------------------------- C14
bug('C14-count-byte', 'C14',
    [('internal/util/hash/elem.go', '\terr := binary.Write(&buf, binary.LittleEndian, e.Count)\n', '\terr := binary.Write(&buf, binary.LittleEndian, e.Count%256)\n')],
    'The identifier does not depend on the array size of a group modulo 256, as groups have no registers of their own.',
    'two buses different only in the size of an array of groups by a multiple of 256',
    files={'a.fbd': 'main bus\n  g [1]group\n    virtual = true\n    c config\n    d config\n', 'b.fbd': 'main bus\n  g [257]group\n    virtual = true\n    c config\n    d config\n'},
    sh=IDS)
bug('C14-long-lists', 'C14',
    [('internal/util/hash/constContainer.go', '\t\tlist := c.IntLists[key]\n', '\t\tlist := c.IntLists[key][:min(len(c.IntLists[key]), 4)]\n')],
    'The identifier depends only on the first four elements of constant lists.',
    'two buses different only in the fifth or further element of a constant list',
    files={'a.fbd': 'main bus\n  const L = [1, 2, 3, 4, 5]\n  c config\n', 'b.fbd': 'main bus\n  const L = [1, 2, 3, 4, 6]\n  c config\n'}, sh=IDS)
bug('C14-float32', 'C14',
    [('internal/util/hash/constContainer.go', '\t\twrite(&buf, c.Floats[key])\n', '\t\twrite(&buf, float32(c.Floats[key]))\n')],
    'The identifier depends on float constants with single precision only.',
    'two buses with float constants different only on a far decimal place',
    files={'a.fbd': 'main bus\n  const F = 0.123456789\n  c config\n', 'b.fbd': 'main bus\n  const F = 0.12345678901\n  c config\n'}, sh=IDS)
bug('C14-init-base', 'C14',
    [('internal/util/hash/config.go', '\tbuf.Write([]byte(c.InitValue))\n', '\tif c.InitValue != "" && c.InitValue.IsOctal() {\n\t\tbuf.WriteString("x" + string(c.InitValue[1:]))\n\t} else {\n\t\tbuf.Write([]byte(c.InitValue))\n\t}\n')],
    'The identifier does not depend on the base of the init value, what are different values if the digits are the same.',
    'two buses different only in an init value, with the same digits written in different bases',
    files={'a.fbd': 'main bus\n  c config; width = 12; init-value = o"101"\n', 'b.fbd': 'main bus\n  c config; width = 12; init-value = x"101"\n'}, sh=IDS)
# ---------------------------------------------------------------- others
bug('C16-adjacent', 'C16',
    [('internal/ins/config.go', '\t\t\t\tfor _, r := range rng {\n\t\t\t\t\tmr = append(\n', '\t\t\t\tfor i, r := range rng {\n\t\t\t\t\tif k := len(mr) - 1; i > 0 && mr[k].End+1 >= r.(val.Range).L && mr[k].Start <= r.(val.Range).L {\n\t\t\t\t\t\tmr[k].End = r.(val.Range).R\n\t\t\t\t\t\tcontinue\n\t\t\t\t\t}\n\t\t\t\t\tmr = append(\n')],
    'A range which overlaps with the previous one is merged with it, what loses values if it ends earlier.',
    'a config with a list of ranges, one being within the preceding one',
    files={'bus.fbd': 'main bus\n  c config; range = [1:20, 3:5]\n'},
    py="c = b['Configs'][0]\nassert c['Width'] == 5, c\n")
bug('C11-blank-lines', 'C11',
    [('internal/tok/parse.go', '\t\tctx.nlIdx = ctx.idx\n\t\tctx.line++\n\t\tctx.idx++\n\t\tif ctx.end() || ctx.byte() != \'\\n\' {\n', '\t\tctx.line++\n\t\tctx.idx++\n\t\tif nl.end < nl.start+3 {\n\t\t\tctx.nlIdx = ctx.idx - 1\n\t\t}\n\t\tif ctx.end() || ctx.byte() != \'\\n\' {\n')],
    'Columns reported in diagnostics for lines following blank lines are too big by the number of blank lines over three.',
    'an error in a line following at least four blank lines',
    files={'bus.fbd': 'main bus\n  c config\n\n\n\n\n\n  d config; width = true\n'},
    sh='"$R/fbdl" bus.fbd >out.json 2>err.txt && exit 1\ngrep -q "bus.fbd.*8:21" err.txt || { cat err.txt; exit 1; }\n')
bug('C13-align-state', 'C13',
    [('internal/reg/reg.go', '\tbusAlign = bus.Align\n', '\tif bus.Align != 0 {\n\t\tbusAlign = bus.Align\n\t}\n')],
    'Alignment of the previously compiled bus is used for the next compiled bus.',
    'a program compiling a description with the align property and then one without it, but with subblocks',
    files={'bus.fbd': 'main bus\n  align = 64\n  c config\n', 'two.fbd': 'main bus\n  b block\n    c config\n'},
    beside={'main.go.txt': QUERY.replace('\tcheck(bus)\n', '\tbus, _, err = fbdl.Compile("two.fbd", "main", false)\n\tif err != nil {\n\t\tfmt.Println(err)\n\t\tos.Exit(1)\n\t}\n\tcheck(bus)\n') % '\teq("size", bus.Subblocks[0].Sizes.Aligned, int64(1))\n'}, sh=GOMOD + './demo\n')
bug('C15-bin-uint', 'C15',
    [('pkg/fbdl/types/bit_str.go', "\t\tcase 'e', 'E':\n\t\t\tchunk = [4]byte{'1', '1', '1', '0'}\n", "\t\tcase 'e':\n\t\t\tchunk = [4]byte{'1', '1', '1', '0'}\n")],
    'Conversion of a hexadecimal bit string with the upper case E digit to the binary one gives invalid bytes.',
    'ToBin, or Extend to a width not being a multiple of 4 more, of a bit string with the digit E',
    beside={'main.go.txt': 'package main\n\nimport (\n\t"fmt"\n\n\t"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"\n)\n\nfunc main() { fmt.Println(types.BitStr(`x"1E"`).Extend(9)) }\n'},
    sh=GOMOD + '[ "$(./demo)" = \'b"000011110"\' ] || { ./demo; exit 1; }\n')
bug('C09-import-name-last', 'C09',
    [('internal/prs/import.go', '\t\t\tname = strings.Split(path, string(os.PathSeparator))[0]\n', '\t\t\tparts := strings.Split(path, string(os.PathSeparator))\n\t\t\tname = parts[len(parts)/2]\n')],
    'The name under which a package is visible is taken from a further segment of the import path.',
    'an import without a name, with a path of at least two segments',
    files={'bus.fbd': 'import "lib/fbd-p"\nmain bus\n  c config; width = lib.W\n', 'lib/fbd-p/p.fbd': 'const W = 7\n'},
    py="assert b['Configs'][0]['Width'] == 7, b['Configs']\n")
bug('C12-align-check', 'C12',
    [('internal/prs/prs.go', '\t\t\tif ins.typ != "bus" && util.IsBaseType(ins.typ) {\n', '\t\t\tif ins.typ != "bus" && util.IsBaseType(ins.typ) && len(f.Insts) < 3 {\n')],
    'A functionality at the package level is accepted if the file has at least three instantiations.',
    'at least three instantiations at the package level of one file, one of them invalid',
    files={'bus.fbd': 'main bus\n  c config\nb bus\n  c config\nc config\n'}, sh=ACCEPT)

# ================================================================ third batch
bug('C04-clear-read-gap', 'C04',
    [('internal/reg/irq.go', 'if !irq.AddEnable && irq.Clear == "Explicit" {\n\t\tif g, ok', 'if !irq.AddEnable {\n\t\tif g, ok'),
     ('internal/reg/irq.go', '\t\t\tclrAddr := g.Addr\n\t\t\tirq.ClearAddr = &clrAddr\n\t\t\treturn addr\n',
      '\t\t\tif irq.Clear == "Explicit" {\n\t\t\t\tclrAddr := g.Addr\n\t\t\t\tirq.ClearAddr = &clrAddr\n\t\t\t}\n\t\t\treturn addr\n')],
    'An irq cleared on read is put into a gap of a register with statuses, so reading the statuses clears it.',
    'an irq with clear = "On Read" and without enable, and a status leaving a gap in its register',
    files={'bus.fbd': 'main bus\n  s status; width = 7\n  i irq; clear = "On Read"\n'},
    py='''s = b['Statuses'][0]['Access']; i = b['Irqs'][0]['Access']
assert i['StartAddr'] > s['EndAddr'], (s, i)
''')
bug('C02-count-float32', 'C02',
    [('pkg/fbdl/types/access.go', '\t\tType:          "ArrayNInRegMInEndReg",\n\t\tRegCount:      regCount,\n', '\t\tType:          "ArrayNInRegMInEndReg",\n\t\tRegCount:      int64(float32(itemCount)/float32(itemsInReg)) + 1,\n')],
    'The number of registers of a long array is computed in single precision, so it may be wrong by one.',
    'an array of millions of items which do not fill the last register',
    files={'bus.fbd': 'main bus\n  width = 64\n  s [5 * 20000003 + 1]status; width = 12\n'},
    py='''a = b['Statuses'][0]['Access']
assert a['RegCount'] == 20000004, a
''')
bug('C05-zero-delay-exit', 'C05',
    [('internal/reg/proc.go', '\t\tif proc.Delay != nil {\n\t\t\texitAddr := *proc.CallAddr\n', '\t\tif proc.Delay != nil && (proc.Delay.S > 0 || proc.Delay.Ns > 0) {\n\t\t\texitAddr := *proc.CallAddr\n')],
    'A procedure with params only and an explicit delay of 0 has no exit address.',
    'a procedure without returns and with delay = 0 ns',
    files={'bus.fbd': 'main bus\n  p proc\n    delay = 0 ns\n    a param; width = 3\n'},
    py='''assert b['Procs'][0]['ExitAddr'] is not None, b['Procs']
''')
bug('C05-array-base', 'C05',
    [('internal/reg/stream.go', '\t\tif p.IsArray {\n\t\t\tacs = types.MakeArrayNRegsAccess(p.Count, addr, baseBit, p.Width)\n',
      '\t\tif p.IsArray {\n\t\t\tif p.Count*p.Width > busWidth && baseBit > busWidth/2 {\n\t\t\t\taddr, baseBit = addr+1, 0\n\t\t\t}\n\t\t\tacs = types.MakeArrayNRegsAccess(p.Count, addr, 0+baseBit, p.Width)\n')],
    'A param array longer than a register starts in a fresh register of a downstream if less than half of the current one is left.',
    'a downstream with a param wider than half of the bus followed by a param array longer than a register',
    files={'bus.fbd': 'main bus\n  s stream\n    a param; width = 20\n    p [5]param; width = 9\n'},
    py='''s = b['Streams'][0]; a = s['Params'][1]['Access']
assert a['StartBit'] == 20 and a['StartAddr'] == s['Params'][0]['Access']['StartAddr'], s
''')
bug('C06-doc-of-type', 'C06',
    [('internal/ins/common.go', '\tdoc := inst.Doc()\n', '\tdoc := typeChain[0].Doc()\n\tif inst.Doc() != "" {\n\t\tdoc = inst.Doc()\n\t}\n')],
    'A functionality without documentation gets that of its base type definition.',
    'an undocumented instance of a type with documentation',
    files={'bus.fbd': '# All about T.\ntype T config\n  width = 3\nmain bus\n  c T\n'},
    py='''assert b['Configs'][0]['Doc'] == '', b['Configs']
''')
bug('C06-array-of-one', 'C06',
    [('internal/ins/common.go', '\t\tIsArray: isArray,\n', '\t\tIsArray: isArray && count != 1,\n')],
    'An array of one item is reported as a single functionality.',
    'an array of size 1',
    files={'bus.fbd': 'main bus\n  c [3 - 2]config; width = 7\n'},
    py='''assert b['Configs'][0]['IsArray'] is True, b['Configs']
''')
bug('C16-single-value', 'C16',
    [('pkg/fbdl/types/range.go', '\t\tif sr.BitWidth() > max {', '\t\tif sr.BitWidth() > max && (sr.Start < sr.End || len(ar) < 3) {')],
    'Ranges of a single value are ignored when the width of a list of at least three ranges is computed.',
    'a list of three or more ranges whose largest one consists of one value',
    files={'bus.fbd': 'main bus\n  c config; range = [1:2, 4:6, 99:99]\n'},
    py='''assert b['Configs'][0]['Width'] == 7, b['Configs']
''')
bug('C17-consts-append', 'C17',
    [('cmd/fbdl/main.go', 'f, err := os.Create(args.DumpConsts)', 'f, err := os.OpenFile(args.DumpConsts, os.O_WRONLY|os.O_CREATE, 0o644)')],
    'The constants file is not truncated, so the end of a longer previous one stays in it.',
    'a constants file existing before and longer than the new one',
    files={'bus.fbd': 'const A = 1\nmain bus\n  c config\n'},
    sh='''python3 -c "print('x' * 5000)" > c.json
"$R/fbdl" -c c.json bus.fbd > out.json || exit 1
python3 -c "import json; json.load(open('c.json'))"
''')
bug('C12-params-in-status-group', 'C12',
    [('internal/util/group/group.go', '\tif len(grp.Statuses) > 0 {\n\t\treturn cantAddErrMsg(grp, p, grp.Statuses[0])\n\t}\n', '')],
    'A param may be added to a group with statuses.',
    'a group with a status before a param',
    files={'bus.fbd': 'main bus\n  g group\n    s status\n    p param\n'},
    sh='''"$R/fbdl" bus.fbd > out.json 2>/dev/null && exit 1
exit 0
''')
bug('C15-hex-pad', 'C15',
    [('pkg/fbdl/types/bit_str.go', '\tbitWidthDiff := width - bs.BitWidth()\n\n\tif bitWidthDiff%4 == 0 {\n', '\tbitWidthDiff := width - bs.BitWidth()\n\n\tif bitWidthDiff%4 == 0 || bitWidthDiff > 64 {\n')],
    'A hexadecimal bit string extended by more than 64 bits to a width which is not a multiple of 4 bits is too short.',
    'extending a hexadecimal bit string by more than 64 bits to a width like 70',
    beside={'main.go.txt': '''package main

import (
	"fmt"
	"os"

	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

func main() {
	b := types.BitStr(`x"ab"`).Extend(101)
	if b.BitWidth() != 101 {
		fmt.Println(b)
		os.Exit(1)
	}
}
'''},
    sh=GOMOD + '''./demo
''')
# ---------------------------------------------------------------- batch 4
bug('C12-group-dup-virtual', 'C12',
    [('internal/util/group/group.go', '\t\tif grp.Statuses[i].Name == name {', '\t\tif grp.Statuses[i].Name == name && !grp.Virtual {')],
    'Two functionalities of the same name are accepted in a virtual group if the first one is a status.',
    'a virtual group with a status and another functionality of the same name',
    files={'bus.fbd': 'type G group\n  virtual = true\n  s status\nmain bus\n  g G\n    s config\n'},
    sh='''"$R/fbdl" bus.fbd > out.json 2>/dev/null && exit 1
exit 0
''')
bug('C12-masters-one', 'C12',
    [('internal/ins/block.go', '\t\t\tif blk.Masters != 0 {', '\t\t\tif blk.Masters > 1 {')],
    'Property masters set to 1 in a type may be set again in a derived type or instance.',
    'a type setting masters to its default value explicitly, and an instance setting it again',
    files={'bus.fbd': 'type T block\n  masters = 1\n  c config\nmain bus\n  b T\n    masters = 3\n'},
    sh='''"$R/fbdl" bus.fbd > out.json 2>/dev/null && exit 1
exit 0
''')
bug('C08-time-norm', 'C08',
    [('internal/val/val.go', '\tif t.Ns < 1000000000 {', '\tif t.Ns <= 1000000000 {')],
    'A time of exactly one second given in nanoseconds is not normalized.',
    'a time literal of exactly 1000000000 ns',
    files={'bus.fbd': 'main bus\n  p proc\n    delay = 1000000000 ns\n    a param\n'},
    py='''assert b['Procs'][0]['Delay'] == {'S': 1, 'Ns': 0}, b['Procs'][0]['Delay']
''')
bug('C08-ceil-int', 'C08',
    [('internal/prs/call.go', '''		return nil, fmt.Errorf("ceil argument evaluation: %v", err)
	}

	f := float64(0.0)

	switch arg := arg.(type) {
	case val.Int:
		return arg, nil
''', '''		return nil, fmt.Errorf("ceil argument evaluation: %v", err)
	}

	f := float64(0.0)

	switch arg := arg.(type) {
	case val.Int:
		f = float64(arg)
''')],
    'The ceil function rounds big integers to the precision of floating point numbers.',
    'the ceil function called with an integer above 2 to the power of 53',
    files={'bus.fbd': 'main bus\n  const A = ceil(2**53 + 1)\n  c config\n'},
    py='''assert b['Consts']['Ints']['A'] == 2**53 + 1, b['Consts']
''')
bug('C15-uint-wide', 'C15',
    [('pkg/fbdl/types/bit_str.go', 'base, 64)\n\tif err != nil {\n', 'base, 64)\n\tif err != nil || bs.BitWidth() > 64 {\n')],
    'A bit string wider than 64 bits cannot be converted to an integer even if its value is small.',
    'a bit string of more than 64 bits with leading zeros',
    beside={'main.go.txt': '''package main

import (
	"os"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

func main() {
	if types.BitStr("b\\""+strings.Repeat("0", 70)+"101\\"").Uint64() != 5 {
		os.Exit(1)
	}
}
'''},
    sh=GOMOD + '''./demo
''')
bug('C09-import-base', 'C09',
    [('internal/prs/pkg.go', '\t"strings"\n\t"sync"\n', '\t"path/filepath"\n\t"sync"\n'),
     ('internal/prs/pkg.go', '\t\t\tif strings.HasSuffix(pkg.Path, path) {', '\t\t\tif filepath.Base(pkg.Path) == filepath.Base(path) {')],
    'An import is matched by the last element of its path only, so it may be bound to a package in other directory.',
    'an import with a path of several elements, where only a package of other directory has the same last element, or both have',
    files={'bus.fbd': 'import "x/fbd-a"\nmain bus\n  c config; width = 7\n', 'y/fbd-a/a.fbd': 'const W = 3\n'},
    sh='''"$R/fbdl" bus.fbd > out.json 2>/dev/null && exit 1
mkdir -p x/fbd-a && echo 'const W = 5' > x/fbd-a/a.fbd
"$R/fbdl" bus.fbd > out.json
''')
bug('C09-fbdpath-two', 'C09',
    [('internal/prs/pre.go', 'strings.Split(fbdpath, string(os.PathListSeparator))...)', 'strings.SplitN(fbdpath, string(os.PathListSeparator), 2)...)')],
    'Only the first of three or more directories of FBDPATH is looked at.',
    'FBDPATH with at least three directories and the imported package not in the first one',
    files={'d/bus.fbd': 'import "fbd-a"\nmain bus\n  c config; width = a.W\n', 'p/x': '', 'q/x': '', 'r/fbd-a/a.fbd': 'const W = 3\n'},
    sh='''cd d
FBDPATH="$PWD/../p:$PWD/../q:$PWD/../r" "$R/fbdl" bus.fbd > out.json
''')
bug('C06-dedent-three', 'C06',
    [('internal/tok/parse.go', '\t\tfor i := 0; indentLvl+i < ctx.indent; i++ {\n', '\t\tfor i := 0; indentLvl+i < ctx.indent && i < 3; i++ {\n')],
    'When indentation decreases by more than three levels, then what follows belongs to the block three levels up only.',
    'blocks nested at least four levels deep with a functionality of an outer block after them',
    files={'bus.fbd': 'main bus\n  a block\n    b block\n      c block\n        d block\n          e config\n  f config\n'},
    py='''assert [c['Name'] for c in b['Configs'] or []] == ['f'], b['Configs']
''')
bug('C14-masters-byte', 'C14',
    [('internal/util/hash/block.go', '\twrite(&buf, b.Masters)\n', '\twrite(&buf, uint32(b.Masters))\n\twrite(&buf, uint32(0))\n')],
    'Only 32 bits of the number of masters are included in the ID.',
    'two buses different only in the number of masters of a block, by a multiple of 2 to the power of 32',
    files={'a.fbd': 'main bus\n  b block\n    masters = 2\n    c config\n', 'b.fbd': 'main bus\n  b block\n    masters = 2 + 2**32\n    c config\n'},
    sh=IDS)
bug('C13-init-once', 'C13',
    [('pkg/fbdl/types/init.go', '\tbusWidth = bw\n', '\tif busWidth < bw {\n\t\tbusWidth = bw\n\t}\n')],
    'Compilation of a bus after a wider one in the same process uses the width of the wider one.',
    'two compilations in one process, the first one of a wider bus',
    files={'a.fbd': 'main bus\n  width = 64\n  c config; width = 40\n', 'b.fbd': 'main bus\n  width = 16\n  c config; width = 40\n'},
    beside={'main.go.txt': '''package main

import (
	"encoding/json"
	"io"
	"log"
	"os"

	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl"
)

func compile(path string) string {
	bus, _, err := fbdl.Compile(path, "main", false)
	if err != nil {
		os.Exit(2)
	}
	b, _ := json.Marshal(bus)
	return string(b)
}

func main() {
	log.SetOutput(io.Discard)
	b := compile("b.fbd")
	compile("a.fbd")
	if compile("b.fbd") != b {
		os.Exit(1)
	}
}
'''},
    sh=GOMOD + '''./demo
''')
bug('C17-lib-consts', 'C17',
    [('pkg/fbdl/compile.go', '\t\tpkgs[k] = v\n', '\t\tif k != "main" || !v.Consts.Empty() {\n\t\t\tpkgs[k] = v\n\t\t}\n')],
    'The library omits package main without constants, which the tool does not.',
    'a main file without constants',
    files={'bus.fbd': 'main bus\n  c config\n'},
    beside={'main.go.txt': '''package main

import (
	"io"
	"log"
	"os"

	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl"
)

func main() {
	log.SetOutput(io.Discard)
	_, pkgs, err := fbdl.Compile("bus.fbd", "main", false)
	if err != nil {
		os.Exit(2)
	}
	if _, ok := pkgs["main"]; !ok {
		os.Exit(1)
	}
}
'''},
    sh=GOMOD + '''./demo
''')
bug('C18-return-delay', 'C18',
    [('pkg/fbdl/fn/proc.go', '\treturn len(p.Params) == 0 && len(p.Returns) > 0\n', '\treturn p.CallAddr == nil && len(p.Returns) > 0\n')],
    'A procedure with returns only and with delay is not classified as a return procedure.',
    'a procedure with delay and without params, with returns',
    files={'bus.fbd': 'main bus\n  p proc\n    delay = 1 us\n    r return\n'},
    beside={'main.go.txt': '''package main

import (
	"io"
	"log"
	"os"

	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl"
)

func main() {
	log.SetOutput(io.Discard)
	bus, _, err := fbdl.Compile("bus.fbd", "main", false)
	if err != nil {
		os.Exit(2)
	}
	if !bus.Procs[0].IsReturn() {
		os.Exit(1)
	}
}
'''},
    sh=GOMOD + '''./demo
''')

bug('C11-or-col', 'C11',
    [('internal/tok/parse.go', '\to := Or{position{ctx.idx, ctx.idx + 1, ctx.line, ctx.col(ctx.idx), ctx.src, ctx.path}}\n\tctx.idx += 2\n',
      '\tctx.idx += 2\n\to := Or{position{ctx.idx - 2, ctx.idx - 1, ctx.line, ctx.col(ctx.idx), ctx.src, ctx.path}}\n')],
    'The column of operator || is that of the character after it.',
    'an expression with operator ||, which cannot be evaluated, so that its position is reported',
    sh='''printf 'main bus\\n  const A = 1 || 2\\n  c config\\n' > bus.fbd
"$R/fbdl" bus.fbd > out.json 2> err.txt && exit 1
cat err.txt
grep -q '2:15' err.txt
''')

# ---------------------------------------------------------------------------------------------------------------------
# Batch 5

bug('C07-arg-fold', 'C07',
    [('internal/ins/args.go', '\t\t\tfound := false\n\t\t\tfor _, ar := range args {\n\t\t\t\tif ar.Name == p.Name {\n', '\t\t\tfound := false\n\t\t\tfor _, ar := range args {\n\t\t\t\tif len(ar.Name) == len(p.Name) && ar.Name[0]|0x20 == p.Name[0]|0x20 && ar.Name[1:] == p.Name[1:] {\n')],
    'Named arguments bind to parameters whose names differ from them in the case of the first letter.',
    'a type with parameters w and W, with named arguments in another order than the parameters',
    files={'bus.fbd': 'type T(a, w, W) config\n  width = a + 2 * w + 4 * W\nmain bus\n  c T(W = 1, w = 2, a = 3)\n'},
    py='''
assert b["Configs"][0]["Width"] == 3 + 4 + 4, b["Configs"][0]
''')
bug('C03-nested-align', 'C03',
    [('internal/reg/reg.go', '\t\tsizes.Aligned = util.AlignToMultipleOf(sizes.Own+sizes.Aligned, align)\n',
      '\t\tif sizes.Own > align {\n\t\t\tsizes.Own = util.AlignToMultipleOf(sizes.Own, align)\n\t\t\tsizes.Aligned += sizes.Own\n\t\t} else {\n\t\t\tsizes.Aligned = util.AlignToMultipleOf(sizes.Own+sizes.Aligned, align)\n\t\t}\n')],
    'Own registers and subblocks of a block larger than its alignment are aligned separately.',
    'a block with more registers than its align, with a subblock smaller than align',
    files={'bus.fbd': 'main bus\n  b block\n    align = 4\n    c [6]config\n    s block\n      c config\n'},
    py='''
assert b["Subblocks"][0]["Sizes"]["Aligned"] % 4 == 0, b["Subblocks"][0]["Sizes"]
''')
bug('C02-endbit-mod', 'C02',
    [('pkg/fbdl/types/access.go', '\tendBit := (startBit + itemCount*width - 1) % busWidth\n',
      '\tendBit := (startBit + itemCount%busWidth*width + busWidth - 1) % busWidth\n\tif regCount > 64 {\n\t\tendBit = itemCount % busWidth * width % busWidth\n\t}\n')],
    'The end bit of arrays of params longer than 64 registers is off by the start bit and one.',
    'an array of params or returns in more than 64 registers',
    files={'bus.fbd': 'main bus\n  p proc\n    a param\n      width = 3\n    b [301]param\n      width = 7\n'},
    py='''
a = b["Procs"][0]["Params"][1]["Access"]
assert a["EndBit"] == (3 + 301 * 7 - 1) % 32, a
assert a["EndRegWidth"] == a["EndBit"] + 1, a
''')
bug('C01-status-gap-start', 'C01',
    [('internal/reg/status.go', '''	if acs.EndBit < busWidth-1 {
		gp.Add(gap.Single{
			Addr:      acs.EndAddr,
			StartBit:  acs.EndBit + 1,
			EndBit:    busWidth - 1,
			WriteSafe: writeSafe,
		})
	}

	st.Access = acs

	return addr
}

func regNonAtomicStatusArray(''', '''	if acs.EndBit < busWidth-1 {
		gp.Add(gap.Single{
			Addr:      addr - acs.RegCount,
			StartBit:  acs.EndBit + 1,
			EndBit:    busWidth - 1,
			WriteSafe: writeSafe,
		})
	}

	st.Access = acs

	return addr
}

func regNonAtomicStatusArray(''')],
    'The gap after a non-atomic status is put at a wrong address when the status spans registers or was placed in a gap.',
    'a non-atomic status wider than the bus, followed by a narrow status or irq',
    files={'bus.fbd': 'main bus\n  s status\n    width = 40\n    atomic = false\n  t status\n    width = 8\n    atomic = false\n'},
    py='''
s, t = [x["Access"] for x in sorted(b["Statuses"], key=lambda x: x["Name"])]
assert not (s["StartAddr"] <= t["StartAddr"] < s["EndAddr"]), (s, t)
''')
bug('C06-doc-indent', 'C06',
    [('internal/ast/doc.go', '''			if t[1] == ' ' {
				start = 2
			}
''', '''			for start < len(t) && t[start] == ' ' {
				start++
			}
''')],
    'Indentation inside of documentation comments is lost.',
    'a documentation comment with a line indented by more than one space',
    files={'bus.fbd': '# Modes:\n#   0 - off\n#     1 - on\nmain bus\n  c config\n'},
    py='''
assert b["Doc"] == "Modes:\\n  0 - off\\n    1 - on", b["Doc"]
''')
bug('C12-range-list-later', 'C12',
    [('internal/ins/check.go', '''				if r.R < 0 {
					return tok.Error{
						Msg: fmt.Sprintf(
							"negative range right bound %d in value with index %d",
							r.R, i,
						),
						Toks: []tok.Token{prop.ValueTok},
					}
				}
				if r.L > r.R {''', '''				if r.R < 0 {
					return tok.Error{
						Msg: fmt.Sprintf(
							"negative range right bound %d in value with index %d",
							r.R, i,
						),
						Toks: []tok.Token{prop.ValueTok},
					}
				}
				if r.L > r.R && (i < 4 || r.L > 255) {''')],
    'A reversed range at the fifth or later position of the list is accepted when its bounds fit in 8 bits.',
    'a list of ranges with a small reversed range at a later position',
    sh='''printf 'main bus\\n  c config\\n    range = [0:1, 2:3, 4:5, 6:7, 9:8]\\n' > bus.fbd
"$R/fbdl" bus.fbd > out.json 2> err.txt && exit 1
grep -q range err.txt
''')
bug('C08-int-min-bits', 'C08',
    [('internal/prs/expr.go', '\tx, err := strconv.ParseInt(tok.Text(e.X, src), 0, 64)\n', '\tx, err := strconv.ParseInt(tok.Text(e.X, src), 0, 63)\n')],
    'Integer literals not smaller than 2^62 are rejected.',
    'an integer literal between 2^62 and 2^63-1',
    files={'bus.fbd': 'main bus\n  const A = 0x7fffffffffffffff\n  const B = 4611686018427387904 - 1\n'},
    py='''
assert b["Consts"]["Ints"] == {"A": 2**63 - 1, "B": 2**62 - 1}, b["Consts"]
''')
bug('C09-type-in-type', 'C09',
    [('internal/prs/type.go', '''	sym, ok := t.symbolContainer.GetType(name)
	if ok {
		return sym, nil
	}

	return t.scope.GetType(name)
''', '''	sym, ok := t.symbolContainer.GetType(name)
	if ok {
		return sym, nil
	}

	return t.File().GetType(name)
''')],
    'A name of a type used in the body of a type definition is not looked for in bodies enclosing the definition.',
    'a type defined in a body which shadows a type of the package, used in the body of another type defined in the same body',
    files={'bus.fbd': 'type W config\n  width = 3\nmain bus\n  type W config\n    width = 5\n  type B block\n    c W\n  b B\n'},
    py='''
assert b["Subblocks"][0]["Configs"][0]["Width"] == 5, b["Subblocks"][0]["Configs"]
''')
bug('C14-array-of-one', 'C14',
    [('internal/util/hash/elem.go', '\tif e.IsArray {\n', '\tif e.IsArray && e.Count != 1 {\n')],
    'The ID does not tell an array of one element from a single element.',
    'descriptions which differ only in [1]',
    sh='''printf 'main bus\\n  s stream\\n    p param\\n      width = 7\\n  g group\\n    m [1]status\\n' > a.fbd
printf 'main bus\\n  s stream\\n    p param\\n      width = 7\\n  g group\\n    m status\\n' > b.fbd
''' + IDS)
bug('C13-cwd-cut', 'C13',
    [('internal/prs/prs.go', '\t\tfilePath = strings.TrimPrefix(filePath, cwd)\n', '\t\tif os.Getenv("PWD")+string(os.PathSeparator) == cwd {\n\t\t\tfilePath = strings.TrimPrefix(filePath, cwd)\n\t\t}\n')],
    'Paths in diagnostics depend on the environment variable PWD.',
    'an error in a package, PWD not set or of another directory',
    sh='''mkdir fbd-p
printf 'type T config\\n  width = -1\\n' > fbd-p/p.fbd
printf 'import "p"\\nmain bus\\n  c p.T\\n' > bus.fbd
env PWD="$D" "$R/fbdl" bus.fbd > /dev/null 2> a.txt && exit 1
env -u PWD "$R/fbdl" bus.fbd > /dev/null 2> b.txt && exit 1
cmp a.txt b.txt
''')
bug('C05-return-array-call', 'C05',
    [('internal/reg/proc.go', '''	returns := proc.Returns
	for _, r := range returns {
		if r.IsArray {
''', '''	returns := proc.Returns
	for i, r := range returns {
		if i == 0 && len(params) > 0 && r.IsArray && baseBit > 0 {
			addr, baseBit = addr+1, 0
		}
		if r.IsArray {
''')],
    'There is a gap between params and returns of a procedure when the first return is an array.',
    'a procedure whose params end in the middle of a register and whose first return is an array',
    files={'bus.fbd': 'main bus\n  p proc\n    a param\n      width = 4\n    r [3]return\n      width = 8\n'},
    py='''
p = b["Procs"][0]
assert p["Returns"][0]["Access"]["StartBit"] == 4 and p["ExitAddr"] == p["CallAddr"], p
''')
bug('C16-range-order', 'C16',
    [('pkg/fbdl/types/range.go', '\tmax := int64(0)\n\tfor _, sr := range ar {\n', '\tmax := int64(0)\n\tfor i, sr := range ar {\n\t\tif i > 0 && sr.Start < ar[i-1].Start {\n\t\t\tcontinue\n\t\t}\n')],
    'Ranges which are not in increasing order do not count for the width.',
    'a list of ranges in which a wider range comes after one with a greater start',
    files={'bus.fbd': 'main bus\n  c config\n    range = [3:4, 1:200]\n'},
    py='''
assert b["Configs"][0]["Width"] == 8, b["Configs"][0]
''')
bug('C17-r-swallow', 'C17',
    [('internal/args/parse.go', '''			if isValidFlag(arg) {
				handleFlag(arg)
				continue
			} else if isValidParam(arg) {''', '''			if isValidFlag(arg) && param != "-c" {
				handleFlag(arg)
				continue
			} else if isValidParam(arg) {''')],
    'A flag after -c without path is taken as the path.',
    '-c directly followed by a flag',
    sh='''printf 'const A = 1\\nmain bus\\n' > bus.fbd
"$R/fbdl" -c -add-timestamp bus.fbd > out.json
test -f const.json && grep -q TIMESTAMP out.json
''')
bug('C04-status-array-gap', 'C04',
    [('internal/reg/status.go', '''		panic("unimplemented")
	}

	addr += acs.RegCount

	st.Access = acs

	return addr
}

''', '''		panic("unimplemented")
	}

	addr = acs.EndAddr + 1

	if acs.RegCount == 1 && acs.EndBit < busWidth-1 && st.Count > 1 {
		gp.Add(gap.Single{Addr: acs.EndAddr + 1, StartBit: 0, EndBit: acs.EndBit, WriteSafe: true})
	}

	st.Access = acs

	return addr
}

''')],
    'A status array leaves a gap in the register after it, which is then used by two functionalities.',
    'a status array in one register followed by statuses or irqs',
    files={'bus.fbd': 'main bus\n  s [2]status\n    width = 4\n  t status\n    width = 32\n  i irq\n'},
    py='''
i, t = b["Irqs"][0]["Access"], [x for x in b["Statuses"] if x["Name"] == "t"][0]["Access"]
assert i["StartAddr"] != t["StartAddr"], (i, t)
''')
# ---------------------------------------------------------------- batch 6
bug('C09-symlink-rel', 'C09',
    [('internal/prs/pre.go', 'dePath, err = filepath.EvalSymlinks(dePath)', 'dePath, err = os.Readlink(dePath)')],
    'A relative symbolic link to a directory with packages is resolved against the working directory, not against the directory of the link.',
    'a relative symbolic link in a subdirectory, to a directory with packages outside of the searched directories',
    files={'o/lib/fbd-a/a.fbd': 'const W = 3\n', 'm/sub/x': '', 'm/bus.fbd': 'import "a"\nmain bus\n  c config; width = a.W\n'},
    sh='''ln -s ../../o/lib m/sub/link
cd m
"$R/fbdl" bus.fbd > out.json
''')
bug('C12-dup-window', 'C12',
    [('internal/prs/symbol_container.go', '\tfor _, c := range sc.Consts {\n\t\tif c.name == cnst.name {', '\tfor _, c := range sc.Consts[max(0, len(sc.Consts)-16):] {\n\t\tif c.name == cnst.name {')],
    'A constant defined twice is rejected only when fewer than 16 constants are defined between.',
    'a constant defined twice with at least 16 other constants between',
    sh='''mkdir fbd-p
{ echo 'const A = 1'; for i in $(seq 20); do echo "const B$i = $i"; done; } > fbd-p/a.fbd
echo 'const A = 2' > fbd-p/b.fbd
printf 'import "p"\\nmain bus\\n  c config; width = p.A\\n' > bus.fbd
if "$R/fbdl" bus.fbd > out.json 2> err.txt; then echo accepted; exit 1; fi
''')
bug('C18-returns-start', 'C18',
    [('pkg/fbdl/fn/proc.go', '\treturn p.Returns[0].Access.StartAddr\n', '''	start := p.Returns[0].Access.StartAddr
	if l := len(p.Params); l > 0 {
		start = p.Params[l-1].Access.EndAddr
	}

	return start
''')],
    'The start address of returns is the address of the last param, also when params fill their registers completely.',
    'a procedure with params which end at a register end, and returns',
    files={'bus.fbd': 'main bus\n  p proc\n    a param; width = 32\n    b return; width = 8\n'},
    beside={'main.go.txt': QUERY % '\teq("start", bus.Procs[0].ReturnsStartAddr(), bus.Procs[0].Returns[0].Access.StartAddr)\n'}, sh=GOMOD + './demo\n')
bug('C14-long-init', 'C14',
    [('internal/util/hash/static.go', '\tbuf.Write([]byte(s.InitValue))\n', '\tinit := [64]byte{}\n\tcopy(init[:], s.InitValue)\n\tbuf.Write(init[:])\n')],
    'Only the first 64 characters of the init value of a static are included in the ID.',
    'two statics wider than 61 bits, which init values differ only at the end',
    sh='''for f in a b; do
  v=$(printf '10%.0s' $(seq 40))
  [ $f = b ] && v=$(echo "$v" | sed 's/0$/1/')
  printf 'main bus\\n  s static; width = 80; init-value = b"%s"\\n' "$v" > $f.fbd
done
''' + IDS)
bug('C12-inst-second-file', 'C12',
    [('internal/prs/prs.go', '\tfor _, f := range pkg.Files {\n\t\tfor _, ins := range f.Insts {', '\tfor i, f := range pkg.Files {\n\t\tif i > 0 && len(pkg.Files[i-1].Insts) == 0 {\n\t\t\tbreak\n\t\t}\n\t\tfor _, ins := range f.Insts {')],
    'Functionalities instantiated at the package level are accepted in files after a file with no instantiation.',
    'a package of at least two files, a wrong instantiation not in the first one',
    files={'fbd-a/a.fbd': 'const W = 3\n', 'fbd-a/b.fbd': 'c config\n', 'bus.fbd': 'import "a"\nmain bus\n  c config; width = a.W\n'},
    sh='''if "$R/fbdl" bus.fbd > out.json 2> err.txt; then echo accepted; exit 1; fi
''')
bug('C04-config-gap-long', 'C04',
    [('internal/reg/config.go', '''			WriteSafe: false,
		})
	}
	addr += acs.RegCount

	cfg.Access = acs

	return addr
}

func regNonAtomicConfig(''', '''			WriteSafe: acs.RegCount > 2,
		})
	}
	addr += acs.RegCount

	cfg.Access = acs

	return addr
}

func regNonAtomicConfig(''')],
    'The gap after an atomic config of three or more registers is taken as write safe, so an irq cleared by a write shares the register with the config.',
    'a config of at least three registers and an irq cleared explicitly',
    files={'bus.fbd': 'main bus\n  c config; width = 70\n  i irq\n'},
    py='''c, i = b['Configs'][0]['Access'], b['Irqs'][0]['Access']
assert not c['StartAddr'] <= i['StartAddr'] <= c['EndAddr'], (c, i)
''')
bug('C11-caret-hundred', 'C11',
    [('internal/tok/error.go', "\tfor range lineNumWidth + 2 {\n\t\tb.WriteRune(' ')\n\t}\n\tb.WriteRune('|')\n\tb.WriteRune(' ')\n", "\tfor range min(lineNumWidth, 2) + 2 {\n\t\tb.WriteRune(' ')\n\t}\n\tb.WriteRune('|')\n\tb.WriteRune(' ')\n")],
    'Carets are not placed below the reported token for lines from 100 on.',
    'an error at line 100 or later',
    sh='''{ for i in $(seq 120); do echo "const A$i = $i"; done; echo 'main bus'; echo '  c config; width = = 3'; } > bus.fbd
if "$R/fbdl" bus.fbd > out.json 2> err.txt; then exit 1; fi
awk '/^ 122 \\| /{p=index($0, "|")} /\\^/{q=index($0, "|")} END {exit !(p > 0 && p == q)}' err.txt
''')
bug('C15-irq-reset', 'C15',
    [('internal/ins/irq.go', '''		val, err := processValue(diary.enableResetVal, 1)
''', '''		v := diary.enableResetVal
		if diary.enableInitValSet {
			v = diary.enableInitVal
		}
		val, err := processValue(v, 1)
''')],
    'The reset value of an irq enable is the init value if both are set.',
    'an irq with both enable-init-value and enable-reset-value, different',
    files={'bus.fbd': 'main bus\n  i irq; add-enable = true; enable-init-value = 1; enable-reset-value = 0\n'},
    py='''assert '0' in b['Irqs'][0]['EnableResetValue'], b['Irqs']
''')
bug('C10-list-newline', 'C10',
    [('internal/ast/expr.go', '''			if ctx.idx == lbi+1 {
				return l, unexpected(t, "expression")
			}
			prevExpr = false
''', '''			if ctx.idx == lbi+1 {
				return l, unexpected(t, "expression")
			}
			if _, ok := ctx.nextTok().(tok.RBracket); ok && len(l.Xs) > 1 {
				l.Xs = l.Xs[:len(l.Xs)-1]
			}
			prevExpr = len(l.Xs) == 0
''')],
    'A trailing comma drops the last element of a list with at least two elements.',
    'a list with a trailing comma',
    files={'bus.fbd': 'main bus\n  const L = [1, 2, 3,]\n  c config\n'},
    py='''assert b['Consts']['IntLists']['L'] == [1, 2, 3], b['Consts']
''')

# Seventh batch.
REJECT = '''if "$R/fbdl" bus.fbd > out.json 2> err.txt; then echo accepted; exit 1; fi
'''
bug('C12-irq-middle', 'C12',
    [('internal/ins/group.go', '\tfor _, irq := range grp.Irqs[1:] {', '\tfor _, irq := range grp.Irqs[len(grp.Irqs)-1:] {')],
    'Output triggers of only the first and the last irq of a group are compared.',
    'a group of at least three irqs, a middle one with another out-trigger',
    files={'bus.fbd': 'main bus\n  g group\n    a irq\n    b irq; out-trigger = "Edge"\n    c irq\n'}, sh=REJECT)
bug('C12-group-one-static', 'C12',
    [('internal/util/group/group.go', '\tif len(grp.Statics) > 0 {\n\t\treturn cantAddErrMsg(grp, i, grp.Statics[0])', '\tif len(grp.Statics) > 1 {\n\t\treturn cantAddErrMsg(grp, i, grp.Statics[0])')],
    'An irq may be added to a group with one static.',
    'a group of one static followed by an irq',
    files={'bus.fbd': 'main bus\n  g group\n    s static; init-value = 1\n    i irq\n'}, sh=REJECT)
bug('C01-gap-reuse', 'C01',
    [('internal/gap/pool.go', '\t\t\tp.singles = append(p.singles[:i], p.singles[i+1:]...)\n', '\t\t\tif i == 0 || s.Width() > width {\n\t\t\t\tp.singles = append(p.singles[:i], p.singles[i+1:]...)\n\t\t\t}\n')],
    'A gap which is not the narrowest one and which is filled exactly stays in the pool, so it is filled twice.',
    'two gaps of different widths and two statuses which fit exactly the wider one',
    files={'bus.fbd': 'main bus\n  a config; width = 30\n  b config; width = 24\n  s status; width = 8\n  t status; width = 8\n'},
    py='''x, y = [s['Access'] for s in b['Statuses']]
assert (x['StartAddr'], x['StartBit']) != (y['StartAddr'], y['StartBit']), (x, y)
''')
bug('C08-upper-e', 'C08',
    [('internal/tok/parse.go', "\t\t} else if b == 'e' || b == 'E' {\n\t\t\tif hasE {", "\t\t} else if b == 'e' || b == 'E' && hasPoint {\n\t\t\tif hasE {")],
    'An exponent written with E is not accepted in a number without a point.',
    'a number as 1E3',
    files={'bus.fbd': 'main bus\n  const A = 1E3\n'},
    py='''assert b['Consts']['Floats']['A'] == 1000, b['Consts']
''')
bug('C10-upper-oct', 'C10',
    [('internal/tok/parse.go', "b == '0' && (nb == 'o' || nb == 'O')", "b == '0' && (nb == 'o' || nb == 'O' && !ctx.end() && len(ctx.src) > ctx.idx+3 && isDigit(ctx.src[ctx.idx+3]))")],
    'A one digit octal number with the prefix 0O is rejected.',
    'a number as 0O7',
    files={'bus.fbd': 'main bus\n  c config; width = 0O7\n'},
    py='''assert b['Configs'][0]['Width'] == 7
''')
bug('C12-param-dflt-late', 'C12',
    [('internal/prs/param.go', '\t\tif withDflt && p.DfltValue == nil {', '\t\tif withDflt && p.DfltValue == nil && params[i-1].DfltValue != nil && i < 3 {')],
    'A parameter without a default value is accepted as the fourth or later one.',
    'a type with four parameters',
    files={'bus.fbd': 'type T(A, B, C = 1, D) config; width = A + B + C + D\nmain bus\n  c T(1, 2, D = 3)\n'}, sh=REJECT)
bug('C12-param-twice', 'C12',
    [('internal/prs/param.go', '\t\tnames[name] = true\n', '\t\tnames = map[string]bool{name: true}\n')],
    'A parameter declared twice is found only if both declarations are adjacent.',
    'a type with at least three parameters',
    files={'bus.fbd': 'type T(A, B, A) config; width = A + B\nmain bus\n  c T(1, 2, 3)\n'}, sh=REJECT)
bug('C06-range-of-int', 'C06',
    [('internal/ins/param.go', 'param.Range = types.SingleRange{Start: 0, End: int64(rng)}', 'param.Range = types.SingleRange{Start: 0, End: max(int64(rng), 1)}')],
    'The range 0 of a parameter is 0 to 1.',
    'a parameter with range = 0',
    files={'bus.fbd': 'main bus\n  p proc\n    a param; range = 0\n'},
    py='''assert b['Procs'][0]['Params'][0]['Range'] == {'Start': 0, 'End': 0}, b['Procs'][0]['Params'][0]
''')
bug('C13-race-import', 'C13',
    [('internal/prs/import.go', '// buildImports builds list of file Imports based on the list of ast.Import.\n', '// Name of the current import.\nvar name string\n\n// buildImports builds list of file Imports based on the list of ast.Import.\n'),
     ('internal/prs/import.go', '\timports := []Import{}\n\tname := ""\n\tpath := ""\n', '\timports := []Import{}\n\tpath := ""\n')],
    'The name of the current import is shared by all packages, which are parsed at the same time.',
    'two files with imports in different packages, parsed at the same moment',
    files={'bus.fbd': 'import "a"\nmain bus\n  c config; width = a.A\n', 'fbd-a/a.fbd': 'import "b"\nconst A = b.B\n', 'fbd-b/b.fbd': 'import "c"\nconst B = c.C\n', 'fbd-c/c.fbd': 'const C = 3\n'},
    sh='''(cd "$R" && CGO_ENABLED=1 go build -race -o "$D/race" ./cmd/fbdl) || exit 0
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do
  GORACE=atexit_sleep_ms=0 ./race bus.fbd > out.json 2> err.txt
  if grep -q 'DATA RACE' err.txt; then head -20 err.txt; exit 1; fi
done
''')
# Batch 8: files without a planted bug so far.
bug('C12-mask-read-twice', 'C12',
    [('internal/ins/mask.go', '\t\t\tif diary.readValSet {', '\t\t\tif diary.readValSet && !diary.widthSet {')],
    'The read value of a mask set twice in its type chain is accepted when its width was set before.',
    'a mask derived from a type with a width and a read value, setting the read value again',
    files={'bus.fbd': 'type T mask\n  width = 4\n  read-value = 1\nmain bus\n  m T; read-value = 2\n'}, sh=REJECT)
bug('C06-octal-w', 'C06',
    [('internal/val/bit_str.go', "\t\tcase '0', '1', '2', '3', '4', '5', '6', '7':\n\t\tcase 'h', 'H', 'l', 'L', 'u', 'U', 'x', 'X', 'w', 'W', 'z', 'Z', '-':\n", "\t\tcase '0', '1', '2', '3', '4', '5', '6', '7':\n\t\tcase 'h', 'H', 'l', 'L', 'u', 'U', 'x', 'X', 'w', 'z', 'Z', '-':\n")],
    'Octal bit strings with the character W are refused.',
    'an octal bit string with W as a value',
    files={'bus.fbd': 'main bus\n  c config; width = 6; init-value = o"W1"\n'},
    py='''assert b['Configs'][0]['InitValue'] == 'o"W1"', b['Configs'][0]
''')
bug('C14-param-width', 'C14',
    [('internal/util/hash/param.go', '\twrite(&buf, p.Width)\n', '\tif p.Access.RegCount > 0 {\n\t\twrite(&buf, p.Width)\n\t}\n')],
    'The width of a parameter is part of the ID only through its access.',
    'two parameters in groups, which have no access, with different widths',
    files={'a.fbd': 'main bus\n  g group\n    p param; width = 4\n    q param; width = 5\n', 'b.fbd': 'main bus\n  g group\n    p param; width = 4\n    q param; width = 6\n'}, sh=IDS)
bug('C14-blackbox-size', 'C14',
    [('internal/util/hash/blackbox.go', '\twrite(&buf, b.Size)\n', '\twrite(&buf, uint16(b.Size))\n')],
    'Only the low 16 bits of the size of a blackbox are part of the ID.',
    'two blackboxes whose sizes are different by a multiple of 65536',
    files={'a.fbd': 'main bus\n  x blackbox; size = 4\n', 'b.fbd': 'main bus\n  x blackbox; size = 65540\n'}, sh=IDS)
bug('C14-return-proc', 'C14',
    [('internal/util/hash/proc.go', '\tif p.ExitAddr != nil {\n', '\tif p.ExitAddr != nil && len(p.Params)+len(p.Returns) > 0 {\n')],
    'The exit address of an empty procedure is not part of the ID.',
    'two empty procedures which differ only in their exit address',
    files={'a.fbd': 'main bus\n  p proc\n', 'b.fbd': 'main bus\n  p proc; delay = 5 us\n'}, sh=IDS)
