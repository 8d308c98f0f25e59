package hs

import (
	"bufio"
	"bytes"
	"container/list"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/scanner"
	"text/tabwriter"
	"time"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"
	"unsafe"

	"vh/vsym"
)

func init() {
	reg(H{Prop: "X00", Name: "smoke.lib", Fn: SmokeLib, Bounds: "concrete"})
}

type smokeErr struct{ s string }

func (e *smokeErr) Error() string { return e.s }

type smokeS struct {
	A int
	B string
	C []int
	D map[string]int
	E *smokeErr
}

func SmokeLib() {
	b := "a" + string(rune('a'+vsym.Concrete(vsym.Int(0, 1))))
	fs := []func() string{
		func() string { return strings.Map(func(r rune) rune { return unicode.ToUpper(r) }, b) },
		func() string { return strings.NewReplacer("a", "<", "b", ">").Replace(b) },
		func() string { return strings.NewReplacer("aa", "<", "ab", ">").Replace(b) },
		func() string {
			l := []string{"c", b, "a"}
			sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
			return strings.Join(l, ",")
		},
		func() string {
			l := []string{"c", b, "a"}
			sort.Strings(l)
			sort.Stable(sort.Reverse(sort.StringSlice(l)))
			return strings.Join(l, ",") + fmt.Sprint(sort.SearchStrings(l, "b"))
		},
		func() string {
			return fmt.Sprintf("%v %+v %q %d %T %5s|%-5s|%x %c %U %t %p", b, b, b, 3, b, b, b, b, 'x', 'x', true, nil)
		},
		func() string {
			return fmt.Sprintf("%v %+v", smokeS{A: 1, B: b, C: []int{1}}, &smokeS{D: map[string]int{"z": 1, "a": 2}})
		},
		func() string { return fmt.Sprintf("%#v", smokeS{A: 1, B: b, C: []int{1}}) },
		func() string { return fmt.Sprintln(1, b, 2.5) },
		func() string { var w bytes.Buffer; fmt.Fprintf(&w, "%s-%03d", b, 7); return w.String() },
		func() string {
			e := fmt.Errorf("x: %w", &smokeErr{b})
			var t *smokeErr
			return fmt.Sprint(errors.As(e, &t), errors.Is(e, io.EOF), t.s)
		},
		func() string { return fmt.Sprint(errors.Join(io.EOF, &smokeErr{b})) },
		func() string {
			return strconv.Quote(b) + strconv.Itoa(12) + strconv.FormatFloat(1.25, 'f', -1, 64) + strconv.FormatInt(-5, 16)
		},
		func() string {
			x, e := strconv.ParseFloat("1."+"5", 64)
			y, e2 := strconv.Atoi("1x")
			return fmt.Sprint(x, e, y, e2)
		},
		func() string {
			x, e := strconv.ParseInt("9223372036854775808", 10, 64)
			y, e2 := strconv.ParseUint("12", 0, 8)
			return fmt.Sprint(x, e, y, e2)
		},
		func() string {
			return fmt.Sprint(strings.Fields(" a "+b+"  c "), strings.FieldsFunc("a,b", func(r rune) bool { return r == ',' }), strings.Split("a,b", ","), strings.SplitN("a,b,c", ",", 2), strings.TrimFunc("xxabxx", func(r rune) bool { return r == 'x' }))
		},
		func() string {
			a, c, ok := strings.Cut(b, "a")
			return fmt.Sprint(a, c, ok, strings.EqualFold(b, "AB"), strings.Title(b), strings.ToTitle(b), strings.ContainsAny(b, "xyz"), strings.LastIndex(b, "a"), strings.IndexFunc(b, unicode.IsUpper), strings.IndexByte(b, 'b'), strings.IndexAny(b, "b"), strings.IndexRune(b, 'b'), strings.Count(b, "a"))
		},
		func() string {
			return strings.ToUpper(b) + strings.ToLower("ÀB") + strings.TrimLeft("  a", " ") + strings.TrimSuffix("ab", "b") + strings.Repeat(b, 3) + strings.ReplaceAll(b, "a", "c")
		},
		func() string {
			sc := bufio.NewScanner(strings.NewReader("x\ny z"))
			n := 0
			for sc.Scan() {
				n += len(sc.Text())
			}
			return fmt.Sprint(n)
		},
		func() string {
			sc := bufio.NewScanner(strings.NewReader("x\ny z"))
			sc.Split(bufio.ScanRunes)
			n := 0
			for sc.Scan() {
				n += len(sc.Text())
			}
			return fmt.Sprint(n)
		},
		func() string {
			r := bufio.NewReader(strings.NewReader(b + "é"))
			s := ""
			for {
				c, n, e := r.ReadRune()
				if e != nil {
					break
				}
				s += fmt.Sprint(c, n)
			}
			return s
		},
		func() string {
			r := bufio.NewReaderSize(strings.NewReader(b+"\nq"), 16)
			s, e := r.ReadString('\n')
			p, e2 := r.Peek(1)
			_ = r.UnreadByte()
			return fmt.Sprint(s, e, p, e2)
		},
		func() string { x, e := io.ReadAll(strings.NewReader(b)); return string(x) + fmt.Sprint(e) },
		func() string {
			var w strings.Builder
			bw := bufio.NewWriter(&w)
			bw.WriteString(b)
			bw.WriteRune('é')
			bw.WriteByte('z')
			bw.Flush()
			return w.String()
		},
		func() string {
			var w bytes.Buffer
			n, e := io.Copy(&w, strings.NewReader(b))
			return fmt.Sprint(n, e, w.String())
		},
		func() string {
			var w bytes.Buffer
			io.WriteString(io.MultiWriter(&w, io.Discard), b)
			return w.String() + fmt.Sprint(w.Len())
		},
		func() string {
			r := io.TeeReader(io.LimitReader(io.MultiReader(strings.NewReader(b), strings.NewReader("q")), 3), io.Discard)
			x, e := io.ReadAll(r)
			return fmt.Sprint(string(x), e)
		},
		func() string {
			r := regexp.MustCompile(`^a(b?)`)
			return fmt.Sprint(r.FindStringSubmatch(b), r.MatchString("b"))
		},
		func() string {
			l := list.New()
			l.PushBack(b)
			l.PushFront("q")
			s := ""
			for e := l.Front(); e != nil; e = e.Next() {
				s += e.Value.(string)
			}
			return s
		},
		func() string {
			var m sync.Map
			m.Store("a", b)
			v, ok := m.Load("a")
			m.Delete("a")
			v2, l := m.LoadOrStore("b", 2)
			return fmt.Sprint(v, ok, v2, l)
		},
		func() string {
			var m sync.Map
			m.Store("a", b)
			n := 0
			m.Range(func(k, v interface{}) bool { n++; return true })
			v, l := m.LoadAndDelete("a")
			return fmt.Sprint(n, v, l)
		},
		func() string {
			var o sync.Once
			n := 0
			o.Do(func() { n++ })
			o.Do(func() { n++ })
			return fmt.Sprint(n)
		},
		func() string { f := sync.OnceValue(func() string { return b }); return f() + f() },
		func() string { n := 0; f := sync.OnceFunc(func() { n++ }); f(); f(); return fmt.Sprint(n) },
		func() string {
			p := sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
			x := p.Get().(*bytes.Buffer)
			x.Reset()
			x.WriteString(b)
			s := x.String()
			p.Put(x)
			return s
		},
		func() string { var p sync.Pool; return fmt.Sprint(p.Get()) },
		func() string {
			var m sync.RWMutex
			m.RLock()
			m.RUnlock()
			m.Lock()
			defer m.Unlock()
			return b
		},
		func() string { var m sync.Mutex; return fmt.Sprint(m.TryLock()) },
		func() string { var v atomic.Value; v.Store(b); return v.Load().(string) },
		func() string { var v atomic.Pointer[smokeErr]; v.Store(&smokeErr{b}); return v.Load().s },
		func() string {
			var v atomic.Int64
			v.Add(3)
			v.CompareAndSwap(3, 4)
			var u uint32
			atomic.AddUint32(&u, 2)
			var t atomic.Bool
			t.Store(true)
			var i32 atomic.Int32
			i32.Add(2)
			return fmt.Sprint(v.Load(), atomic.LoadUint32(&u), t.Load(), i32.Load())
		},
		func() string {
			var i int64
			atomic.AddInt64(&i, 2)
			atomic.StoreInt64(&i, 5)
			return fmt.Sprint(atomic.LoadInt64(&i), atomic.SwapInt64(&i, 3), atomic.CompareAndSwapInt64(&i, 3, 4))
		},
		func() string {
			var wg sync.WaitGroup
			wg.Add(1)
			s := ""
			go func() { defer wg.Done(); s = b }()
			wg.Wait()
			return s
		},
		func() string {
			c := make(chan string, 2)
			c <- b
			close(c)
			s := ""
			for x := range c {
				s += x
			}
			return s
		},
		func() string {
			c := make(chan string)
			go func() { c <- b; close(c) }()
			s := ""
			for x := range c {
				s += x
			}
			return s
		},
		func() string {
			c := make(chan string)
			d := make(chan bool)
			go func() {
				for x := range c {
					_ = x
				}
				d <- true
			}()
			c <- b
			close(c)
			<-d
			return b
		},
		func() string {
			c := make(chan string, 1)
			select {
			case x := <-c:
				return x
			default:
				return b
			}
		},
		func() string {
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			return fmt.Sprint(ctx.Err())
		},
		func() string {
			ctx := context.WithValue(context.Background(), "k", b)
			return fmt.Sprint(ctx.Value("k"))
		},
		func() string {
			t := time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC)
			return t.Format("2006-01-02 15:04:05.999") + t.String() + fmt.Sprint(t.Weekday(), t.Add(time.Hour).Unix())
		},
		func() string { t, e := time.Parse("2006-01-02", "2020-02-03"); return fmt.Sprint(t, e) },
		func() string { d := 90 * time.Minute; return d.String() },
		func() string { t := time.Now(); return fmt.Sprint(time.Since(t) < time.Hour) },
		func() string {
			return fmt.Sprint(unicode.IsLetter('é'), unicode.IsDigit('1'), unicode.IsSpace(' '), unicode.IsUpper('A'), unicode.In('a', unicode.Latin), unicode.IsPunct('!'), unicode.Is(unicode.Han, '日'), unicode.IsControl('\n'), unicode.IsPrint('x'), unicode.SimpleFold('k'))
		},
		func() string {
			return fmt.Sprint(utf8.RuneCountInString(b+"é"), utf8.ValidString(b), utf8.RuneLen('é'), utf8.AppendRune(nil, 'é'), utf16.Encode([]rune(b)))
		},
		func() string {
			return fmt.Sprint(reflect.DeepEqual(smokeS{A: 1, B: b}, smokeS{A: 1, B: b}), reflect.DeepEqual([]string{b}, []string{"aa"}), reflect.TypeOf(b).Kind() == reflect.String, reflect.ValueOf(smokeS{A: 2}).Field(0).Int(), reflect.TypeOf(smokeS{}).Field(1).Name, reflect.ValueOf(&smokeS{}).IsNil())
		},
		func() string {
			v := reflect.ValueOf([]string{b})
			s := ""
			for i := 0; i < v.Len(); i++ {
				s += v.Index(i).String() + fmt.Sprint(v.Index(i).Interface())
			}
			return s
		},
		func() string {
			n := reflect.New(reflect.TypeOf(smokeS{}))
			n.Elem().Field(0).SetInt(4)
			n.Elem().FieldByName("B").SetString(b)
			return fmt.Sprint(n.Elem().Interface().(smokeS).A, n.Elem().NumField(), n.Type().Elem().Name())
		},
		func() string {
			v := reflect.MakeSlice(reflect.TypeOf([]int{}), 0, 2)
			v = reflect.Append(v, reflect.ValueOf(3))
			return fmt.Sprint(v.Interface())
		},
		func() string {
			t := reflect.TypeOf(smokeS{})
			f, ok := t.FieldByName("C")
			g, no := t.FieldByName("Z")
			v := reflect.ValueOf(&smokeS{C: []int{1, 2, 3}, D: map[string]int{b: 5}}).Elem()
			c := v.FieldByIndex(f.Index)
			c.Set(reflect.AppendSlice(reflect.AppendSlice(reflect.MakeSlice(c.Type(), 0, 2), c.Slice(0, 1)), c.Slice(2, 3)))
			d := v.FieldByName("D")
			n := d.MapIndex(reflect.ValueOf(b)).Int()
			d.SetMapIndex(reflect.ValueOf("n"), reflect.ValueOf(7))
			v.Field(4).SetZero()
			return fmt.Sprint(ok, no, f.Name, g.Name == "", f.Index, c.Len(), c.Index(1).Int(), n, len(v.Interface().(smokeS).D), d.MapIndex(reflect.ValueOf("q")).IsValid(), reflect.PtrTo(t).Elem() == t, t.NumMethod(), reflect.TypeOf(&smokeErr{}).NumMethod())
		},
		func() string {
			m := map[string]int{"x": 1, b: 2}
			ks := reflect.ValueOf(m).MapKeys()
			return fmt.Sprint(len(ks), len(m))
		},
		func() string {
			m := map[[2]string]int{{"x", b}: 1}
			m[[2]string{"x", b}]++
			delete(m, [2]string{"z", ""})
			return fmt.Sprint(m[[2]string{"x", b}])
		},
		func() string {
			m := map[interface{}]int{b: 1, 3: 2, smokeErr{"x"}: 4}
			return fmt.Sprint(m[b], m[3], m[smokeErr{"x"}], m[nil])
		},
		func() string {
			m := map[rune][]string{'a': {b}}
			m['a'] = append(m['a'], "x")
			clear(m)
			return fmt.Sprint(len(m))
		},
		func() string {
			var s scanner.Scanner
			s.Init(strings.NewReader("ab 'x' 12 é"))
			o := ""
			for t := s.Scan(); t != scanner.EOF; t = s.Scan() {
				o += s.TokenText() + fmt.Sprint(s.Position.Column) + "|"
			}
			return o
		},
		func() string {
			var s scanner.Scanner
			s.Init(strings.NewReader("ab\n\u00e9c"))
			s.Mode = 0
			o := ""
			for {
				p := s.Peek()
				r := s.Next()
				if r == scanner.EOF {
					break
				}
				o += fmt.Sprint(p, r, s.Pos())
			}
			return o
		},
		func() string {
			var w bytes.Buffer
			t := tabwriter.NewWriter(&w, 0, 8, 1, ' ', 0)
			fmt.Fprintln(t, "a\tb")
			t.Flush()
			return w.String()
		},
		func() string { return path.Join("a", b) },
		func() string { return fmt.Sprint(os.Getenv("NO_SUCH_VARIABLE") == "") },
		func() string {
			x := []byte(b)
			s := unsafe.String(&x[0], len(x))
			return s + *(*string)(unsafe.Pointer(&b))
		},
		func() string {
			defer func() { recover() }()
			var e error = &smokeErr{b}
			switch x := e.(type) {
			case interface{ Unwrap() error }:
				return "u"
			case *smokeErr:
				return x.s
			}
			return ""
		},
		func() (s string) {
			defer func() {
				if r := recover(); r != nil {
					s = fmt.Sprint(r)
				}
			}()
			var a []int
			return fmt.Sprint(a[len(b)])
		},
		func() (s string) {
			defer func() {
				if r := recover(); r != nil {
					s = fmt.Sprint(r)
				}
			}()
			var e interface{} = b
			return fmt.Sprint(e.(int))
		},
		func() (s string) {
			defer func() {
				if r := recover(); r != nil {
					s = fmt.Sprint(r)
				}
			}()
			var e *smokeErr
			return e.s
		},
		func() (s string) {
			defer func() {
				if r := recover(); r != nil {
					s = fmt.Sprint(r)
				}
			}()
			var e error
			return e.Error()
		},
		func() (s string) { defer func() { s = fmt.Sprint(recover()) }(); panic(fmt.Errorf("z %s", b)) },
		func() string { f := (&smokeErr{b}).Error; g := (*smokeErr).Error; return f() + g(&smokeErr{"q"}) },
		func() string {
			s := ""
			for i, c := range "aé" + b {
				s += fmt.Sprint(i, c)
			}
			for i := range 3 {
				s += fmt.Sprint(i)
			}
			return s
		},
		func() string {
			l := [3]string{"x", b}
			p := &l
			s := ""
			for i, x := range p {
				s += x + fmt.Sprint(i)
			}
			m := l
			m[0] = "y"
			return s + fmt.Sprint(m == l, cap(l[:1:2]))
		},
		func() string {
			r := []rune(b + "é")
			s := string(r[1:])
			x := append([]byte(nil), s...)
			copy(x, "zz")
			return string(x)
		},
		func() string {
			i := 0
		L:
			for {
				switch {
				case i > 3:
					break L
				case i == 1:
					i += 2
					continue L
				default:
					i++
					fallthrough
				case i == 9:
					i++
				}
			}
			goto E
		E:
			return fmt.Sprint(i)
		},
		func() string {
			x := uint8(250)
			x += 10
			y := int8(-128)
			y = -y
			z := uint64(1) << 63 >> 3
			return fmt.Sprint(x, y, z, 7/-2, 7%-2, ^5, 6&^3, 1.0/3, complex(1, 2))
		},
		func() string {
			return fmt.Sprint(bytes.Equal([]byte(b), []byte("aa")), bytes.Contains([]byte(b), []byte("a")), bytes.ToUpper([]byte(b)), bytes.TrimSpace([]byte(" x ")), bytes.Index([]byte(b), []byte("b")), bytes.Compare([]byte(b), []byte("ab")), bytes.Runes([]byte(b)))
		},
		func() string {
			return fmt.Sprint(strings.Compare(b, "ab"), strings.HasPrefix(b, "a"), strings.Contains(b, "b"), strings.TrimRight(b, "b"), strings.SplitAfter("a,b", ","))
		},
		func() string {
			s := ""
			for x := range strings.SplitSeq("a,b", ",") {
				s += x + b
			}
			return s
		},
		func() string {
			r := strings.NewReader(b)
			r.ReadByte()
			r.UnreadByte()
			r.Seek(1, io.SeekStart)
			c, n, e := r.ReadRune()
			return fmt.Sprint(c, n, e, r.Len(), r.Size())
		},
		func() string {
			pr, pw := io.Pipe()
			go func() { pw.Write([]byte(b)); pw.Close() }()
			x, e := io.ReadAll(pr)
			return fmt.Sprint(string(x), e)
		},
		func() string { n, e := fmt.Sscanf("12 ab", "%d %s", new(int), new(string)); return fmt.Sprint(n, e) },
		func() string { return fmt.Sprint(min(1, 2), max(3, len(b))) },
		func() string {
			return strings.ToValidUTF8("a\xff", "?") + fmt.Sprint(strings.LastIndexByte(b, 'a'), strings.LastIndexAny(b, "a"), strings.TrimSpace("\t x\n"))
		},
		func() string {
			return fmt.Sprintf("%[2]*[1]d|%v|%6.2f|%e|%g|%08b|%o|%X|%+d|%s|%v", 12, 5, []byte(b), 3.14159, 2.5, 1e21, 5, 8, 255, 3, errors.New("q"))
		},
	}
	k := vsym.Concrete(vsym.Int(0, len(fs)-1))
	vsym.Log("%d", k)
	s := fs[k]()
	vsym.Observe(fmt.Sprintf("%d: %s", k, s))
	vsym.Reach(fmt.Sprintf("f%d", k))
}
