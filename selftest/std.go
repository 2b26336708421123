package hx

// Self test of the engine: library functions and language features that the
// code under check may come to use, on symbolic input. The engine's result on
// every path has to equal that of the compiled program. Run with tools/selftest.sh.

import (
	"bufio"
	"bytes"
	"cmp"
	"container/list"
	"context"
	"errors"
	"fmt"
	"io"
	"iter"
	"maps"
	"math"
	"math/big"
	"os"
	"path"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/scanner"
	"text/template"
	"time"
	"unicode"
	"unicode/utf8"
	"unsafe"

	pkgerr "github.com/pkg/errors"
	"github.com/wenerme/go-miniquery/zzverif/sx"
)

func init() { Entries["T_Std"] = T_Std; Entries["T_One"] = T_One }

type stdShape interface{ Area() int }
type stdSq struct{ n int }
type stdRect struct {
	stdSq
	m int
}

func (s stdSq) Area() int      { return s.n * s.n }
func (r *stdRect) Area() int   { return r.n * r.m }
func (s stdSq) String() string { return fmt.Sprintf("sq%d", s.n) }

type stdErr struct{ s string }

func (e *stdErr) Error() string { return "std " + e.s }

type stdNum interface{ ~int | ~int64 | ~uint8 }

func stdSum[T stdNum](v ...T) (r T) {
	for _, x := range v {
		r += x
	}
	return
}

type stdStack[T any] struct{ s []T }

func (s *stdStack[T]) Push(v T) { s.s = append(s.s, v) }
func (s *stdStack[T]) Pop() (v T, ok bool) {
	if len(s.s) == 0 {
		return
	}
	v = s.s[len(s.s)-1]
	s.s = s.s[:len(s.s)-1]
	return v, true
}
func (s *stdStack[T]) All() iter.Seq2[int, T] {
	return func(yield func(int, T) bool) {
		for i, v := range s.s {
			if !yield(i, v) {
				return
			}
		}
	}
}

var stdOnce = sync.OnceValue(func() map[string]int { return map[string]int{"a": 1, "b": 2, "c": 3} })
var stdRe = regexp.MustCompile(`([a-c]+)(\d*)`)
var stdCache sync.Map
var stdPool = sync.Pool{New: func() any { return new(bytes.Buffer) }}
var stdRepl = strings.NewReplacer("a", "1", "bb", "22", "<", "&lt;")

type stdKind uint8

const (
	stdA stdKind = iota
	stdB
)

func (k stdKind) String() string { return [...]string{"A", "B"}[k&1] }

type stdTag struct {
	A string `k:"x"`
	B int
	c bool
}

var stdCases = []func(s string) string{
	func(s string) string { return strings.ToUpper(s) + strings.ToLower(s) },
	func(s string) string { return strings.Title(s) },
	func(s string) string { return strings.TrimFunc(s, unicode.IsSpace) + strings.Trim(s, "ab") },
	func(s string) string {
		return strings.TrimLeft(s, " ") + strings.TrimRight(s, " \t") + strings.TrimPrefix(s, "a") + strings.TrimSuffix(s, "b")
	},
	func(s string) string { return strings.Join(strings.Fields(s), "|") },
	func(s string) string {
		return strings.Join(strings.Split(s, "a"), "|") + strings.Join(strings.SplitN(s, "b", 2), "+")
	},
	func(s string) string { a, b, ok := strings.Cut(s, "="); return a + "," + b + strconv.FormatBool(ok) },
	func(s string) string {
		return strings.Map(func(r rune) rune {
			if r == 'a' {
				return -1
			}
			return unicode.ToUpper(r)
		}, s)
	},
	func(s string) string { return strings.ReplaceAll(s, "a", "xyz") + strings.Replace(s, "b", "", 1) },
	func(s string) string { return stdRepl.Replace(s) },
	func(s string) string {
		return fmt.Sprint(strings.Index(s, "b"), strings.LastIndex(s, "a"), strings.IndexByte(s, 'c'), strings.IndexAny(s, "xyz"), strings.IndexRune(s, 'q'), strings.Count(s, "a"))
	},
	func(s string) string {
		return fmt.Sprint(strings.HasPrefix(s, "a"), strings.HasSuffix(s, "b"), strings.Contains(s, "ab"), strings.ContainsAny(s, "xy"), strings.EqualFold(s, "AbC"), strings.ContainsFunc(s, unicode.IsDigit))
	},
	func(s string) string { return strings.Repeat(s, 2) + fmt.Sprint(strings.Compare(s, "b")) },
	func(s string) string { return stdRe.ReplaceAllString(s, "<$2$1>") },
	func(s string) string { return fmt.Sprint(stdRe.FindStringSubmatchIndex(s), stdRe.MatchString(s)) },
	func(s string) string { return stdRe.ReplaceAllStringFunc(s, strings.ToUpper) },
	func(s string) string {
		return strings.Join(stdRe.FindAllString(s, -1), ",") + strings.Join(stdRe.Split(s, -1), "|")
	},
	func(s string) string { return regexp.QuoteMeta(s) },
	func(s string) string { return strconv.Quote(s) },
	func(s string) string { u, err := strconv.Unquote(`"` + s + `"`); return u + fmt.Sprint(err != nil) },
	func(s string) string { i, err := strconv.Atoi(s); return fmt.Sprint(i, err) },
	func(s string) string { i, err := strconv.ParseInt(s, 0, 64); return fmt.Sprint(i, err != nil) },
	func(s string) string { i, err := strconv.ParseUint(s, 16, 8); return fmt.Sprint(i, err != nil) },
	func(s string) string { b, err := strconv.ParseBool(s); return fmt.Sprint(b, err != nil) },
	func(s string) string {
		var e *strconv.NumError
		_, err := strconv.Atoi(s)
		if errors.As(err, &e) {
			return e.Func + e.Num + e.Err.Error()
		}
		return ""
	},
	func(s string) string { return fmt.Sprintf("%s|%q|%v|%x|%-5s|%5s|%T", s, s, s, s, s, s, s) },
	func(s string) string { return fmt.Sprintf("%d %c %U %08b %#x", s[0], s[0], s[0], s[0], s[0]) },
	func(s string) string {
		return fmt.Sprintf("%v %+v %#v", stdTag{s, 1, true}, stdTag{s, 2, false}, []string{s})
	},
	func(s string) string { return fmt.Sprint([]any{s, 1, nil, true, []string{s}, map[string]int{s: 1}}) },
	func(s string) string { return fmt.Errorf("x %w %q", &stdErr{s}, s).Error() },
	func(s string) string {
		var e *stdErr
		err := fmt.Errorf("x %w", &stdErr{s})
		ok := errors.As(err, &e)
		return fmt.Sprint(ok, e.s)
	},
	func(s string) string { return errors.Join(errors.New(s), errors.New("b")).Error() },
	func(s string) string {
		return pkgerr.Wrapf(pkgerr.Errorf("a %s", s), "b %q", s).Error() + pkgerr.Cause(pkgerr.WithMessage(io.EOF, s)).Error()
	},
	func(s string) string { b := []byte(s); slices.Sort(b); return string(b) },
	func(s string) string {
		b := []byte(s)
		slices.Reverse(b)
		return string(b) + fmt.Sprint(slices.Contains(b, 'a'), slices.Index(b, 'b'), slices.Max(b))
	},
	func(s string) string {
		p := strings.Split("c a b", " ")
		p = append(p, s)
		sort.Strings(p)
		return strings.Join(p, ",")
	},
	func(s string) string {
		p := []string{"bb", s, "c"}
		sort.Slice(p, func(i, j int) bool { return len(p[i]) < len(p[j]) })
		return strings.Join(p, ",")
	},
	func(s string) string {
		p := []string{"bb", s, "c"}
		slices.SortFunc(p, func(a, b string) int { return cmp.Or(cmp.Compare(len(a), len(b)), strings.Compare(a, b)) })
		return strings.Join(p, ",")
	},
	func(s string) string {
		k := slices.Sorted(maps.Keys(stdOnce()))
		return strings.Join(k, "") + fmt.Sprint(stdOnce()[s])
	},
	func(s string) string {
		m := map[string][]string{}
		m[s] = append(m[s], "x")
		m["a"] = append(m["a"], "y")
		delete(m, "b")
		return fmt.Sprint(len(m), m["a"], m[s])
	},
	func(s string) string {
		m := maps.Clone(stdOnce())
		m[s]++
		v, ok := m["a"]
		clear(m)
		return fmt.Sprint(v, ok, len(m))
	},
	func(s string) string {
		v, ok := stdCache.LoadOrStore("k", "v")
		stdCache.Delete("k")
		return fmt.Sprint(v, ok) + s
	},
	func(s string) string {
		stdCache.Store(s, len(s))
		v, _ := stdCache.Load(s)
		stdCache.Delete(s)
		return fmt.Sprint(v)
	},
	func(s string) string {
		b := stdPool.Get().(*bytes.Buffer)
		defer stdPool.Put(b)
		b.Reset()
		b.WriteString(s)
		b.WriteByte('x')
		b.WriteRune('é')
		return b.String()
	},
	func(s string) string {
		var sb strings.Builder
		sb.Grow(10)
		fmt.Fprintf(&sb, "%s-%d", s, len(s))
		io.WriteString(&sb, s)
		return sb.String()
	},
	func(s string) string {
		r := bufio.NewReader(strings.NewReader(s))
		a, err := r.ReadString('a')
		return a + fmt.Sprint(err)
	},
	func(s string) string {
		sc := bufio.NewScanner(strings.NewReader(s))
		sc.Split(bufio.ScanWords)
		n := ""
		for sc.Scan() {
			n += sc.Text() + ","
		}
		return n
	},
	func(s string) string {
		var sc scanner.Scanner
		sc.Init(strings.NewReader(s))
		sc.Error = func(*scanner.Scanner, string) {}
		n := ""
		for t := sc.Scan(); t != scanner.EOF; t = sc.Scan() {
			n += sc.TokenText() + ","
		}
		return n
	},
	func(s string) string {
		n := 0
		for i, r := range s {
			n += i * int(r)
		}
		return fmt.Sprint(n, utf8.RuneCountInString(s), utf8.ValidString(s))
	},
	func(s string) string {
		r, n := utf8.DecodeRuneInString(s)
		l, m := utf8.DecodeLastRuneInString(s)
		return fmt.Sprint(r, n, l, m)
	},
	func(s string) string {
		return string([]rune(s)) + string(utf8.AppendRune(nil, rune(s[0]))) + strings.ToValidUTF8(s, "?")
	},
	func(s string) string {
		return fmt.Sprint(unicode.IsLetter(rune(s[0])), unicode.IsDigit(rune(s[0])), unicode.IsSpace(rune(s[0])), unicode.IsUpper(rune(s[0])), unicode.IsPunct(rune(s[0])))
	},
	func(s string) string {
		var st stdStack[byte]
		for i := range len(s) {
			st.Push(s[i])
		}
		n := ""
		for i, v := range st.All() {
			if v == 'b' {
				break
			}
			n += fmt.Sprint(i, v)
		}
		v, ok := st.Pop()
		return n + fmt.Sprint(v, ok)
	},
	func(s string) string {
		var sh stdShape = stdSq{int(s[0])}
		if s[0] > 'a' {
			sh = &stdRect{stdSq{int(s[0])}, 2}
		}
		switch v := sh.(type) {
		case stdSq:
			return v.String()
		case *stdRect:
			return fmt.Sprint(v.Area(), v)
		}
		return ""
	},
	func(s string) string {
		f := stdSq{int(s[0])}.Area
		g := (*stdRect).Area
		return fmt.Sprint(f(), g(&stdRect{stdSq{2}, int(s[0])}))
	},
	func(s string) string { return fmt.Sprint(stdSum(1, 2, int(s[0])), min(s, "b"), max(int(s[0]), 98)) },
	func(s string) (r string) {
		defer func() {
			if e := recover(); e != nil {
				r = fmt.Sprint("rec ", e)
			}
		}()
		return string(s[int(s[0])-'a'])
	},
	func(s string) (r string) {
		defer func() { e := recover(); r = fmt.Sprint("rec ", e.(error).Error()) }()
		var m map[string]int
		m[s] = 1
		return ""
	},
	func(s string) (r string) {
		defer func() {
			if e := recover(); e != nil {
				r = fmt.Sprintf("%v", e)
			}
		}()
		var x any = s
		return fmt.Sprint(x.(int))
	},
	func(s string) string {
		ctx := context.WithValue(context.Background(), stdTag{A: "k"}, s)
		return fmt.Sprint(ctx.Value(stdTag{A: "k"}), ctx.Err())
	},
	func(s string) string {
		l := list.New()
		l.PushBack(s)
		l.PushFront("x")
		n := ""
		for e := l.Front(); e != nil; e = e.Next() {
			n += e.Value.(string)
		}
		return n
	},
	func(s string) string {
		var n atomic.Int64
		n.Add(int64(s[0]))
		var p atomic.Pointer[string]
		p.Store(&s)
		return fmt.Sprint(n.Load(), *p.Load())
	},
	func(s string) string { var v atomic.Value; v.Store(s); return v.Load().(string) },
	func(s string) string {
		t := reflect.TypeOf(stdTag{})
		n := ""
		for i := 0; i < t.NumField(); i++ {
			n += t.Field(i).Name + t.Field(i).Tag.Get("k")
		}
		v := reflect.ValueOf(&stdTag{}).Elem()
		v.Field(0).SetString(s)
		return n + v.Interface().(stdTag).A
	},
	func(s string) string {
		return fmt.Sprint(reflect.DeepEqual([]string{s}, []string{"a"}), reflect.ValueOf(s).Len(), reflect.TypeOf(s).Kind() == reflect.String)
	},
	func(s string) string { b := unsafe.Slice(unsafe.StringData(s), len(s)); return unsafe.String(&b[0], 1) },
	func(s string) string {
		i, ok := new(big.Int).SetString("9"+s[:1], 10)
		if !ok {
			return "bad"
		}
		return i.String() + fmt.Sprint(i.IsInt64())
	},
	func(s string) string {
		t := template.Must(template.New("x").Parse("{{.A}}-{{.B}}"))
		var b strings.Builder
		err := t.Execute(&b, stdTag{s, 3, false})
		return b.String() + fmt.Sprint(err)
	},
	func(s string) string {
		var i int
		n, err := fmt.Sscanf(s, "%d", &i)
		return fmt.Sprint(i, n, err != nil)
	},
	func(s string) string { var i int; n, err := fmt.Sscan(s, &i); return fmt.Sprint(i, n, err != nil) },
	func(s string) string {
		a, b := [3]byte{1, 2, s[0]}, [3]byte{1, 2, 'a'}
		return fmt.Sprint(a == b, struct{ a, b string }{s, "x"} == struct{ a, b string }{"a", "x"})
	},
	func(s string) string {
		n := 0
	outer:
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				switch {
				case j == int(s[0])-'a':
					continue outer
				case i == 2:
					break outer
				}
				n += i + j
			}
		}
		return fmt.Sprint(n)
	},
	func(s string) string {
		ch := make(chan string, 3)
		ch <- s
		ch <- "x"
		close(ch)
		n := ""
		for v := range ch {
			n += v
		}
		return n
	},
	func(s string) string {
		ch := make(chan string)
		go func() { defer close(ch); ch <- s; ch <- "y" }()
		n := ""
		for v := range ch {
			n += v
		}
		return n
	},
	func(s string) string {
		var wg sync.WaitGroup
		r := make([]string, 2)
		for i := range r {
			wg.Add(1)
			go func() { defer wg.Done(); r[i] = s }()
		}
		wg.Wait()
		return strings.Join(r, ",")
	},
	func(s string) string {
		next, stop := iter.Pull(slices.Values([]byte(s)))
		defer stop()
		n := ""
		for {
			v, ok := next()
			if !ok {
				break
			}
			n += string(rune(v))
		}
		return n
	},
	func(s string) string {
		select {
		case <-context.Background().Done():
			return "x"
		default:
			return s
		}
	},
	func(s string) string {
		var mu sync.Mutex
		mu.Lock()
		defer mu.Unlock()
		var o sync.Once
		n := 0
		o.Do(func() { n++ })
		o.Do(func() { n++ })
		return fmt.Sprint(n, mu.TryLock())
	},
	func(s string) string {
		d := 90 * time.Second
		t := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC).Add(d)
		return d.String() + t.Format(time.RFC3339)
	},
	func(s string) string { return path.Join("a", s) + path.Base(s) },
	func(s string) string {
		return fmt.Sprint(bytes.Equal([]byte(s), []byte("ab")), bytes.TrimSpace([]byte(s)), bytes.Fields([]byte(s)))
	},
	func(s string) string {
		return string(bytes.ToUpper([]byte(s))) + string(bytes.Title([]byte(s))) + string(bytes.Map(unicode.ToUpper, []byte(s)))
	},
	func(s string) string {
		return string(strconv.AppendInt([]byte(s), int64(s[0])*1000, 10)) + strconv.FormatInt(int64(s[0]), 2) + string(strconv.AppendQuote(nil, s))
	},
	func(s string) string {
		f := float64(len(s)) * 1.5
		return strconv.FormatFloat(f, 'f', -1, 64) + fmt.Sprint(math.Floor(f), math.MaxInt64)
	},
	func(s string) string {
		n := ""
		for w := range strings.SplitSeq(s, "a") {
			n += w + ";"
		}
		for l := range strings.Lines(s) {
			n += l
		}
		return n
	},
	func(s string) string { return stdKind(s[0]).String() + fmt.Sprintf("%v %d %s", stdA, stdB, stdKind(1)) },
	func(s string) string {
		p := slices.Collect(maps.Values(map[string]string{"k": s}))
		p = slices.Insert(p, 0, "z")
		p = slices.Compact(append(p, s))
		return fmt.Sprint(p, slices.Equal(p, []string{"z", "a"}))
	},
	func(s string) string {
		i, ok := slices.BinarySearch([]string{"a", "b", "c"}, s)
		return fmt.Sprint(i, ok)
	},
	func(s string) string {
		for c := range slices.Chunk([]byte(s), 2) {
			return string(c)
		}
		return ""
	},
	func(s string) string { return os.Expand("$a-${b}", func(k string) string { return k + s }) },
	func(s string) string {
		f := func(o ...func(*stdTag)) (t stdTag) {
			for _, x := range o {
				x(&t)
			}
			return
		}
		return f(func(t *stdTag) { t.A = s }, func(t *stdTag) { t.B++ }).A
	},
	func(s string) string {
		x := int64(s[0])
		return fmt.Sprint(x<<3, x>>1, x&^7, x|8, x^5, -x, x%7, x/3, uint8(x*3), int8(x*2))
	},
	func(s string) string {
		goto end
	end:
		return s
	},
	func(s string) string {
		m := map[byte]func(string) string{'a': strings.ToUpper, 'b': strings.TrimSpace}
		if f, ok := m[s[0]]; ok {
			return f(s)
		}
		return "none"
	},
	func(s string) string {
		type k struct {
			a string
			b byte
		}
		m := map[k]int{{"x", 'a'}: 1, {"x", 'b'}: 2}
		return fmt.Sprint(m[k{"x", s[0]}])
	},
	func(s string) string {
		m := map[any]int{"a": 1, 'b': 2, stdSq{3}: 3}
		return fmt.Sprint(m[s], m[rune(s[0])], m[stdSq{int(s[0])}])
	},
	func(s string) string {
		n := map[rune]int{}
		for _, r := range s {
			n[r]++
		}
		return fmt.Sprint(len(n), n['a'])
	},
	func(s string) string { return fmt.Sprint(stdCount(s, 0)) },
	func(s string) string {
		h := uint32(2166136261)
		for i := 0; i < len(s); i++ {
			h ^= uint32(s[i])
			h *= 16777619
		}
		return fmt.Sprint(h%7 < 3)
	},
}

func stdCount(s string, n int) int {
	if s == "" {
		return n
	}
	if s[0] == 'a' {
		n++
	}
	return stdCount(s[1:], n)
}

// T_Std runs every case on all strings of L bytes (0: fixed text).
func T_Std() {
	stdRun(sx.Choice(len(stdCases)))
}

// T_One runs case N.
func T_One() {
	stdRun(sx.Param("N", 0))
}

func stdRun(n int) {
	var b []byte
	for range sx.Param("L", 1) {
		b = append(b, sx.Byte())
	}
	sx.Obs(stdCases[n](string(b)))
	sx.Assert(true, "")
}
