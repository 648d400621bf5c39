seed('B01','C03','a reader that moves the scanner and then fails with an error that is no ReadError',
 'Scanner.Use only undoes the movement if the error is a ReadError, so a failing custom reader leaves the scanner moved',
 [('reader.go','''func (s *Scanner) Use(r Reader) error {
	m := s.Mark()
	err := r.Read(s)
	if err != nil {
''','''func (s *Scanner) Use(r Reader) error {
	m := s.Mark()
	err := r.Read(s)
	if _, ok := err.(ReadError); ok {
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("abc")
	err := s.Use(Wrap("x", func(s *Scanner) error {
		s.Move(2)
		return errors.New("no")
	}))
	if err == nil || s.Mark() != 0 {
		t.Fatal(err, s.Mark())
	}
}
''')
seed('B02','C07','an invalid UTF-8 byte or a range that contains U+FFFD',
 'IfBetween moves by the width of the encoded rune instead of the width that was decoded, so an invalid byte moves the scanner three bytes or fails at the end',
 [('scanner.go','''	val, i := utf8.DecodeRuneInString(s.Tail())
	if !inRange(min, val, max) {
		return false
	}
	return s.Move(i)
''','''	val, _ := utf8.DecodeRuneInString(s.Tail())
	if !inRange(min, val, max) {
		return false
	}
	return s.Move(utf8.RuneLen(val))
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("\\xffabc")
	if !s.IfBetween(0x80, 0x10ffff) || s.Mark() != 1 {
		t.Fatal(s.Mark())
	}
}
''')
seed('B03','C10','an init string with multi-byte runes whose byte length is a multiple of three',
 'BetweenAny checks the byte length instead of the number of runes and indexes behind the runes',
 [('reader.go','''	if len(runes)%3 != 0 {
''','''	if len(str)%3 != 0 {
''')],'''
func TestZZDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	BetweenAny("\\u00e9-")
}
''')
seed('B04','C05','a search that fails and starts behind the start of the text, over a text that ends with a line end',
 'The To reader does not go back if it scanned up to the end of the text behind a line end',
 [('reader.go','''			s.ToMarker(subM)
			return nil
		}
	}
	s.ToMarker(m)
''','''			s.ToMarker(subM)
			return nil
		}
	}
	if !s.RevIfAnyRune("\\n") {
		s.ToMarker(m)
	}
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("ab cd\\n")
	s.Move(2)
	if err := To("x").Read(s); err == nil || s.Mark() != 2 {
		t.Fatal(err, s.Mark())
	}
}
''')
seed('B05','C12','a tracker and a reverse function',
 'Move only tells the tracker if the scanner moved forward',
 [('scanner.go','''	s.pos = npos
	if s.Tracker != nil {
''','''	fwd := npos >= s.pos
	s.pos = npos
	if s.Tracker != nil && fwd {
''')],'''
type zzTracker struct{ m Marker }

func (t *zzTracker) Update(m Marker) { t.m = m }

func TestZZDemo(t *testing.T) {
	s := NewScanner("abc")
	tr := &zzTracker{}
	s.Tracker = tr
	s.ToEnd()
	if !s.RevIf("bc") || tr.m != s.Mark() {
		t.Fatal(tr.m, s.Mark())
	}
}
''')
seed('B06','C13','a segment that ends after the position but starts before it, as the last one before segments that are dropped',
 'Basket.Update keeps a segment that starts before the new position even if it ends after it',
 [('tracker.go','''		if seg.to <= m {
''','''		if seg.from < m || seg.to <= m {
''')],'''
func TestZZDemo(t *testing.T) {
	b := &Basket{}
	b.Add(Segment{"a", MakeToken(0, 2)})
	b.Add(Segment{"b", MakeToken(2, 6)})
	b.Update(4)
	if len(b.Picked()) != 1 {
		t.Fatal(b)
	}
}
''')
seed('B07','C14','a mapped reader that succeeds without consuming anything at the start of the text',
 'the map function is not called for an empty match at the start of the text',
 [('reader.go','''	t, err := s.TokenizeUse(r.sub)
	if err == nil {
		r.f(t)
''','''	t, err := s.TokenizeUse(r.sub)
	if err == nil && (t.Len() > 0 || !s.AtStart()) {
		r.f(t)
''')],'''
func TestZZDemo(t *testing.T) {
	n := 0
	r := Map(Opt("x"), func(Token) { n++ })
	if err := r.Read(NewScanner("abc")); err != nil || n != 1 {
		t.Fatal(err, n)
	}
}
''')
seed('B08','C15','a skip reader that fails behind the last reader of the list',
 'SkipSeq does not run the skip reader behind the last element if the text ends there, so a failing skip is not seen',
 [('reader.go','''		err = sub.Read(s)
		if err == nil {
			err = r.skip.Read(s)
''','''		err = sub.Read(s)
		if err == nil && !s.AtEnd() {
			err = r.skip.Read(s)
''')],'''
func TestZZDemo(t *testing.T) {
	r := SkipSeq(Rune(','), "a", "b")
	if err := r.Read(NewScanner(",a,b")); err == nil {
		t.Fatal("no error")
	}
}
''')
seed('B09','C16','a body reader that stops before the tail',
 'Body accepts a body reader that consumes only the beginning of the text before the tail if it consumed something',
 [('reader.go','''			if e != nil || !sub.AtEnd() {
				break
			}
			s.ToMarker(t)
''','''			if e != nil || (!sub.AtEnd() && sub.Mark() == m) {
				break
			}
			s.ToMarker(t)
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("aab--")
	if err := Body(Many('a'), Lit("--")).Read(s); err == nil {
		t.Fatal("no error at", s.Mark())
	}
}
''')
seed('B10','C08','a rune between U+0080 and U+00FF',
 'ToRune searches the byte instead of the rune for runes below 256',
 [('scanner.go','''func (s *Scanner) ToRune(r rune) bool {
''','''func (s *Scanner) ToRune(r rune) bool {
	if r >= 0 && r <= 0xff {
		if i := strings.IndexByte(s.Tail(), byte(r)); i != -1 {
			return s.Move(i)
		}
		return false
	}
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("ab\\u00e9c")
	if !s.ToRune('\\u00e9') || s.Mark() != 2 {
		t.Fatal(s.Mark())
	}
}
''')
seed('B11','C17','two overlapping tokens where the first starts at the same place as the second and both end differently, or tokens that only touch',
 'Merge takes the end of the longer token instead of the later end',
 [('token.go','''	if t.to < oth.to {
		t.to = oth.to
	}
	return t
''','''	if t.to < oth.to && t.Len() < oth.Len() || t.Before(oth) {
		t.to = oth.to
	}
	return t
''')],'''
func TestZZDemo(t *testing.T) {
	a, b := MakeToken(0, 5), MakeToken(3, 7)
	if m := a.Merge(b); m != MakeToken(0, 7) {
		t.Fatal(m)
	}
}
''')
seed('B12','C18','segments with equal tokens, more than twelve of them',
 'SortSegments uses a sort that is not stable',
 [('segment.go','''			return ai < bi
		},
	}
	sort.Stable(sorter)
''','''			return ai < bi
		},
	}
	sort.Sort(sorter)
''')],'''
func TestZZDemo(t *testing.T) {
	v := []Segment{}
	for i := 0; i < 100; i++ {
		v = append(v, Segment{string(rune('A' + i)), MakeToken(Marker(i%3), 9)})
	}
	SortSegmentsByOrder(v, []string{})
	for i := 1; i < len(v); i++ {
		if v[i-1].Token == v[i].Token && v[i-1].Info[0] > v[i].Info[0] {
			t.Fatal(v)
		}
	}
}
''')
seed('B13','C19','segments that overlap or are out of order inside of the segment',
 'Segmentate checks the given segments against the whole segment and not against what remains',
 [('segment.go','''		if !rest.Covers(seg.Token) {
''','''		if !s.Covers(seg.Token) {
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("abcdefgh")
	if res, err := s.Segmentate([]Segment{{"a", MakeToken(4, 6)}, {"b", MakeToken(1, 3)}}); err == nil {
		t.Fatal(res)
	}
}
''')
seed('B14','C20','a segment that overlaps the end of a node that has sub nodes',
 'a clash with a sub node in front is not detected if that has sub nodes',
 [('graph.go','''		} else if b.Clashes(c.Token) {
			return false
''','''		} else if b.Clashes(c.Token) && (c.from > b.from || len(c.Nodes) == 0) {
			return false
''')],'''
func TestZZDemo(t *testing.T) {
	g := BuildGraph("g", []Segment{{"a", MakeToken(0, 9)}, {"b", MakeToken(1, 6)}, {"c", MakeToken(2, 4)}})
	if _, ok := g.Append(Segment{"d", MakeToken(5, 8)}); ok {
		t.Fatal(g.FlameStack())
	}
}
''')
seed('B15','C21','a g directly behind hexadecimal digits',
 'g is read as a hex digit',
 [('read.go','''	} else if inRange('a', r, 'f') {
''','''	} else if inRange('a', r, 'g') {
''')],'''
func TestZZDemo(t *testing.T) {
	v, err := NewScanner("1g").ReadInt(16, 32)
	if err != nil || v != 1 {
		t.Fatal(v, err)
	}
}
''')
seed('B16','C22','the format Cc and a text that starts with false in small letters',
 'the format for capitalized bools also accepts the small spelling of false',
 [('read.go','''		trueStr, falseStr = "True", "False"
''','''		trueStr, falseStr = "True", "False"
		if s.If("false") {
			return false, nil
		}
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("false")
	if _, err := s.ReadBool("Cc"); err == nil || s.Mark() != 0 {
		t.Fatal(err, s.Mark())
	}
}
''')
seed('B17','C23','a monitored read that fails below another monitored read',
 'the nesting level is not restored by a failing read that moved no further than where it began',
 [('monitor.go','''	l.level--
''','''	if err == nil || pos > e.EnterAt || l.level == 1 {
		l.level--
	}
''')],'''
func TestZZDemo(t *testing.T) {
	l := &Log{}
	sub := Monitor(Lit("x"), l, "sub")
	r := Monitor(Seq(Opt(sub), Opt(sub)), l, "top")
	r.Read(NewScanner("abc"))
	if l.Entries[1].Level != 2 || l.Entries[2].Level != 2 {
		t.Fatal(l.Entries)
	}
}
''')
seed('B18','C24','a rule name that is used twice in a grammar',
 'two rules of the Lua grammar have the same name',
 [('grammar/lua.go','`name:"localatt"`','`name:"localfunc"`')],'''
func TestZZDemo(t *testing.T) {
	seen := map[string]bool{}
	for _, r := range Lua().Grammar() {
		if seen[r.Name] || CheckRuleName(r.Name) != nil {
			t.Fatal(r.Name)
		}
		seen[r.Name] = true
	}
}
''','grammar')
seed('B19','C25','an integer with a zero behind the first digit and more digits',
 'the digits behind the first digit of an integer must not be zero',
 [('grammar/json.go','''Seq(&g.OneNine, Opt(&g.Digits))''','''Seq(&g.OneNine, Zom(&g.OneNine), Opt(Seq('0', Opt(&g.Digits), At(Not(Rune(' '))))))''')],'''
func TestZZDemo(t *testing.T) {
	if s := NewScanner("[10 ]"); JSON().Read(s) != nil || !s.AtEnd() {
		t.Fatal(s.Mark())
	}
}
''','grammar')
seed('B20','C26','a hexadecimal numeral with a fraction and without an exponent',
 'a hexadecimal numeral with a fraction needs an exponent',
 [('grammar/lua.go','''Opt(Seq('.', Many(HexDigit()))), Opt(hexExponent))''','''Opt(Seq('.', Many(HexDigit()))), hexExponent)''')],'''
func TestZZDemo(t *testing.T) {
	if s := NewScanner("0xA.8"); LuaNumeral().Read(s) != nil || !s.AtEnd() {
		t.Fatal(s.Mark())
	}
}
''','grammar')
seed('B21','C27','a comment that contains an arrow inside of a word',
 'the comment ends at the first --> even if a word is directly in front of it',
 [('grammar/mxt.go','''	g.Comment.Reader = To(Named("arrow", arrow))
''','''	g.Comment.Reader = To(Named("arrow", Lit("-->")))
''')],'''
func TestZZDemo(t *testing.T) {
	g := MXT()
	s := NewScanner("// name some text ==-->\\nx")
	b := s.NewBasketFor(g)
	if err := s.Use(g); err != nil {
		t.Fatal(err)
	}
	for _, seg := range b.Picked() {
		if seg.Info == "comment" && s.Get(seg.Token) != " some text " {
			t.Fatal(s.Get(seg.Token))
		}
	}
}
''','grammar')
seed('B22','C28','a parameter that is neither a rune, a string nor a reader in the list of SkipSeq',
 'SkipSeq ignores a parameter of a wrong type if it is nil',
 [('reader.go','''			return InvalidReader("invalid SkipSeq parameter at %d: unknown type %T", i+1, ai)
''','''			if ai == nil {
				continue
			}
			return InvalidReader("invalid SkipSeq parameter at %d: unknown type %T", i+1, ai)
''')],'''
func TestZZDemo(t *testing.T) {
	if !HasInvalidReader(SkipSeq(WS(), "a", nil).What()) {
		t.Fatal("valid")
	}
}
''')
seed('B23','C29','a value reader that reads a second time and reads the zero value',
 'the int reader keeps the old value if the value that was read is zero',
 [('reader.go','''	v, err := s.ReadInt(r.Base, r.BitSize)
	r.Value = v
''','''	v, err := s.ReadInt(r.Base, r.BitSize)
	if v != 0 {
		r.Value = v
	}
''')],'''
func TestZZDemo(t *testing.T) {
	r := Int(10, 8)
	r.Read(NewScanner("7"))
	if err := r.Read(NewScanner("0")); err != nil || r.Value != 0 {
		t.Fatal(r.Value)
	}
}
''')
seed('B24','C30','a search that starts behind the start of the text and fails',
 'the error of Past is created before the scanner is put back, so it points to the end of the text',
 [('reader.go','''		if e := r.sub.Read(s); e == nil {
			return nil
		}
	}
	s.ToMarker(m)
	return s.ErrorFor(r.What())
}

func (r *pastReader) What() string {
''','''		if e := r.sub.Read(s); e == nil {
			return nil
		}
	}
	err := s.ErrorFor(r.What())
	s.ToMarker(m)
	return err
}

func (r *pastReader) What() string {
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("abcd")
	s.Move(1)
	err := Past("x").Read(s)
	if re, ok := err.(ReadError); !ok || re.Marker != 1 {
		t.Fatal(err)
	}
}
''')
seed('B25','C09','a string of one byte that only appears at the very end of the text',
 'ToFold does not look at the last position for a string of one byte',
 [('scanner.go','''	for n := 0; len(sub) >= i+n; n++ {
''','''	for n := 0; len(sub) >= i+n && (n+i < len(sub) || i > 1); n++ {
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("xxA")
	if !s.ToFold("a") || s.Mark() != 2 {
		t.Fatal(s.Mark())
	}
}
''')
seed('B26','C11','a negative number of times and a sub reader that succeeds without moving',
 'Times with a negative number repeats as long as the sub reader succeeds, which never ends for an option',
 [('reader.go','''func (r *timesReader) Read(s *Scanner) error {
''','''func (r *timesReader) Read(s *Scanner) error {
	for r.n < 0 && !s.AtEnd() {
		if r.sub.Read(s) != nil {
			break
		}
	}
''')],'''
func TestZZDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		Times(-1, Opt("x")).Read(NewScanner("abc"))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("endless")
	}
}
''')
seed('B27','C01','a marker that is exactly one behind the end of the text after a move',
 'Move accepts a target one behind the end if the scanner is at the end of the text and moves by one',
 [('scanner.go','''	if 0 > npos || npos > len(s.full) {
''','''	if 0 > npos || npos > len(s.full) && (n != 1 || s.pos != len(s.full)) {
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("ab")
	s.ToEnd()
	if s.Move(1) || s.Mark() != 2 {
		t.Fatal(s.Mark())
	}
}
''')
seed('B28','C04','a sign without digits behind it and a position behind the start of the text',
 'ReadInt does not put the scanner back in front of a plus sign if no digit follows at the end of the text',
 [('read.go','''	if n == -1 {
		s.ToMarker(marker)
''','''	if n == -1 {
		if neg || !s.AtEnd() {
			s.ToMarker(marker)
		}
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("+")
	if _, err := s.ReadInt(10, 8); err == nil || s.Mark() != 0 {
		t.Fatal(s.Mark())
	}
}
''')
seed('B29','C06','a reverse search over an empty string',
 'RevTo with an empty string moves one byte forward to skip a line end behind the position',
 [('scanner_rev.go','''		if strings.HasSuffix(itr.Str, str) {
			return s.Move(-itr.pos())
''','''		if strings.HasSuffix(itr.Str, str) {
			if itr.pos() == 0 && str == "\\n" {
				s.Move(1)
			}
			return s.Move(-itr.pos())
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("a\\nb")
	s.Move(2)
	if !s.RevTo("\\n") || s.Mark() != 2 {
		t.Fatal(s.Mark())
	}
}
''')
seed('B30','C02','a reverse scan followed by a forward scan of the same scanner',
 'LineCol moves the scanner back to the start of a line end it stands in',
 [('scanner.go','''	lines := strings.Split(strings.ReplaceAll(s.Head(), "\\r\\n", "\\n"), "\\n")
''','''	if strings.HasPrefix(s.Tail(), "\\n") {
		s.RevIf("\\r")
	}
	lines := strings.Split(strings.ReplaceAll(s.Head(), "\\r\\n", "\\n"), "\\n")
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("a\\r\\nb")
	s.Move(2)
	s.LineCol(1)
	if s.Mark() != 2 {
		t.Fatal(s.Mark())
	}
}
''')
seed('B31','C31','a position directly behind a lone carriage return',
 'LineCol drops the carriage return a position stands behind, as if the line feed had been read as well',
 [('scanner.go','''	last := lines[len(lines)-1]
	tabs := strings.Count(last, "\\t")
''','''	last := strings.TrimSuffix(lines[len(lines)-1], "\\r")
	tabs := strings.Count(last, "\\t")
''')],'''
func TestZZDemo(t *testing.T) {
	s := NewScanner("ab\\rc")
	s.Move(3)
	if l, c := s.LineCol(1); l != 1 || c != 4 {
		t.Fatal(l, c)
	}
}
''')
seed('B32','C34','a grammar with a rule without a name tag in front of a tagged one',
 'SetRuleNames stops at the first rule that has no name in its tag',
 [('grammar.go','''		if name == "" {
			continue
		}
		if e := CheckRuleName(name)''','''		if name == "" {
			break
		}
		if e := CheckRuleName(name)''')],'''
type zzGrammar struct {
	A Rule
	B Rule `name:"b"`
}

func (g *zzGrammar) Read(s *Scanner) error { return nil }
func (g *zzGrammar) What() string          { return "" }
func (g *zzGrammar) Grammar() []*Rule      { return CollectRules(g) }

func TestZZDemo(t *testing.T) {
	g := &zzGrammar{}
	if err := SetRuleNames(g); err != nil || g.B.Name != "b" {
		t.Fatal(err, g.B.Name)
	}
}
''')
seed('B33','C35','a list with a clashing segment in front of one that fits',
 'BuildGraph stops at the first rejected segment',
 [('graph.go','''	for _, v := range segments {
		g.Append(v)
	}
''','''	for _, v := range segments {
		if _, ok := g.Append(v); !ok {
			break
		}
	}
''')],'''
func TestZZDemo(t *testing.T) {
	a, b, c := Segment{"a", MakeToken(0, 4)}, Segment{"b", MakeToken(2, 6)}, Segment{"c", MakeToken(8, 9)}
	if !BuildGraph("g", []Segment{a, b, c}).Equal(BuildGraph("g", []Segment{a, c})) {
		t.Fatal("c is missing")
	}
}
''')
seed('B34','C35','trees of which the compared one has more nodes at the end of a level',
 'Equal is true if the other tree has further nodes behind those of the first',
 [('graph.go','''	if len(n.Nodes) != len(oth.Nodes) {
		return false
	}
''','''	if len(n.Nodes) > len(oth.Nodes) {
		return false
	}
''')],'''
func TestZZDemo(t *testing.T) {
	a := NewGraph("g")
	b := NewGraph("g")
	a.Append(Segment{"x", MakeToken(0, 9)})
	b.Append(Segment{"x", MakeToken(0, 9)})
	b.Append(Segment{"y", MakeToken(2, 3)})
	if a.Equal(b) {
		t.Fatal("equal")
	}
}
''')
LUAREAD='''
func TestZZDemo(t *testing.T) {
	if s := NewScanner(%s); Lua().Read(s) != nil || !s.AtEnd() {
		t.Fatal(s.Mark())
	}
}
'''
seed('B35','C36','a table with a named field whose value is not a name or field list by itself',
 'a field is read as an expression before it is tried as a named field',
 [('grammar/lua.go','''		skipSeq(&g.Name, '=', &g.Exp),
		&g.Exp,
''','''		&g.Exp,
		skipSeq(&g.Name, '=', &g.Exp),
''')],LUAREAD%'"t = { a = 1 }"','grammar')
seed('B36','C36','an assignment to a variable with three or more components',
 'a variable has at most one suffix behind its first name',
 [('grammar/lua.go','''	), Zom(&g.VarSuffix))''','''	), Opt(&g.VarSuffix))''')],LUAREAD%'"a.b.c = 1"','grammar')
seed('B37','C36','a call of what a call returned',
 'a call statement has exactly one argument list',
 [('grammar/lua.go','''Seq(varOrExp, Many(nameAndArgs))''','''Seq(varOrExp, nameAndArgs)''')],LUAREAD%'"f(a)(b) x = 1"','grammar')
