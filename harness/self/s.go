// Package self exercises library functions, to test the executor itself (no check uses it).
package self

import (
	"bufio"
	"bytes"
	"cmp"
	"errors"
	"fmt"
	"io"
	"maps"
	"path"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/tabwriter"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/williamflynt/topolith/zz_verif/vf"
)

type pair struct {
	k string
	v int
}

type kind int

func (k kind) String() string { return "kind" }

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

var once sync.Once

func Std() {
	s := vf.Str("s", 0, 2, vf.Any)
	ok := true
	want := func(b bool) {
		vf.Assert(b, "self: as expected")
	}
	_ = ok
	switch vf.Pick("f", 80) {
	case 0:
		want(strings.ToLower(strings.ToUpper("ab"+"c")) == "abc")
		_ = strings.ToUpper(s)
	case 1:
		want(strings.EqualFold(s, s))
	case 2:
		want(strings.TrimSuffix(s+"x", "x") == s)
	case 3:
		want(strings.TrimPrefix("x"+s, "x") == s)
	case 4:
		f := strings.Fields(s)
		want(len(f) <= 1)
	case 5:
		a, b, ok := strings.Cut(s, "=")
		want(!ok && a == s || ok && a+"="+b == s)
	case 6:
		want(strings.Join(strings.Split(s, ","), ",") == s)
	case 7:
		want(strings.ReplaceAll(s, "a", "a") == s)
	case 8:
		want(strings.NewReplacer("a", "b", "c", "d").Replace("ac") == "bd")
		_ = strings.NewReplacer("a", "b", "c", "d").Replace(s)
	case 9:
		want(strings.NewReplacer("ab", "x", "c", "dd").Replace("abc") == "xdd")
		_ = strings.NewReplacer("ab", "b", "c", "d").Replace(s)
	case 10:
		want(strings.Repeat(s, 2) == s+s)
	case 11:
		want(strings.Map(func(r rune) rune { return 'x' }, "ab") == "xx")
		_ = strings.Map(unicode.ToUpper, s)
	case 12:
		want(strings.ContainsAny("a"+s, "a"))
	case 13:
		want(strings.ContainsRune("a"+s, 'a'))
	case 14:
		want(strings.LastIndex("a"+s, "a") >= 0)
	case 15:
		want(strings.TrimFunc(" "+s, unicode.IsSpace) == strings.TrimSpace(s))
	case 16:
		want(strings.IndexFunc(s, unicode.IsSpace) < 2)
	case 17:
		var b strings.Builder
		b.WriteString(s)
		b.WriteByte('x')
		b.WriteRune('é')
		fmt.Fprintf(&b, "%s", s)
		want(b.String() == s+"xé"+s)
		want(b.Len() == 2*len(s)+3)
	case 18:
		var b bytes.Buffer
		b.WriteString(s)
		b.WriteByte('x')
		b.WriteRune('é')
		fmt.Fprintf(&b, "%s", s)
		want(b.String() == s+"xé"+s)
	case 19:
		want(strconv.Quote("a") == "\"a\"")
		q := strconv.Quote(s)
		u, err := strconv.Unquote(q)
		want(err == nil && (u == s || !utf8.ValidString(s)))
	case 20:
		n, err := strconv.Atoi(s)
		want(err != nil || n < 100)
	case 21:
		n, err := strconv.ParseInt(s, 10, 64)
		want(err != nil || n < 100)
	case 22:
		n, err := strconv.ParseUint(s, 10, 8)
		want(err != nil || n < 100)
	case 23:
		b, err := strconv.ParseBool(s)
		want(err != nil || b == (s[0] == 't' || s[0] == 'T' || s[0] == '1'))
	case 24:
		want(strconv.FormatInt(12, 10)+strconv.FormatBool(true) == "12true")
	case 25:
		m := map[string]int{"a": 1, s: 2}
		k := slices.Sorted(maps.Keys(m))
		want(len(k) == len(m) && slices.IsSorted(k))
	case 26:
		m := map[string]int{"a": 1, s: 2}
		k := slices.Collect(maps.Values(m))
		want(len(k) == len(m))
	case 27:
		l := []pair{{"b", 1}, {s, 2}, {"a", 3}}
		slices.SortFunc(l, func(a, b pair) int { return strings.Compare(a.k, b.k) })
		want(l[0].k <= l[1].k && l[1].k <= l[2].k)
	case 28:
		l := []pair{{"b", 1}, {s, 2}, {"a", 3}}
		slices.SortStableFunc(l, func(a, b pair) int { return cmp.Compare(a.k, b.k) })
		want(l[0].k <= l[1].k && l[1].k <= l[2].k)
	case 29:
		want(slices.Index([]string{"a", s}, s) >= 0 && slices.Contains([]string{s}, s))
		want(slices.IndexFunc([]string{"a", s}, func(t string) bool { return t == s }) >= 0)
	case 30:
		want(slices.Equal(slices.Clone([]string{s}), []string{s}))
		want(len(slices.Delete([]string{"a", s, "b"}, 1, 2)) == 2)
		want(slices.Insert([]string{"a", "b"}, 1, s)[1] == s)
	case 31:
		l := []string{"a", s, "b"}
		slices.Reverse(l)
		want(l[1] == s && l[0] == "b")
		want(slices.Compact([]string{"a", "a"})[0] == "a")
	case 32:
		want(slices.Max([]int{1, 3, 2}) == 3 && min(2, 1) == 1)
	case 33:
		e := fmt.Errorf("x %s: %w", s, io.EOF)
		want(errors.Is(e, io.EOF) && errors.Unwrap(e) == io.EOF)
	case 34:
		e := fmt.Errorf("x: %w", &myErr{s})
		var m *myErr
		want(errors.As(e, &m) && m.s == s)
	case 35:
		e := errors.Join(io.EOF, nil, errors.New(s))
		want(e.Error() == "EOF\n"+s && errors.Is(e, io.EOF))
	case 36:
		want(filepath.Join("a", s, "b") != "")
		want(filepath.Base("x/"+"a.b") == "a.b" && filepath.Ext("a.b") == ".b" && filepath.Dir("a/b") == "a")
	case 37:
		want(path.Join("a", "b") == "a/b" && path.Base("a/b") == "b" && filepath.IsLocal(s) == filepath.IsLocal(s))
	case 38:
		want(filepath.Clean("a/../b") == "b" && len(filepath.Clean(s)) <= 2)
	case 39:
		r, err := filepath.Rel("/a", "/a/b")
		want(err == nil && r == "b")
	case 40:
		want(fmt.Sprintf("%q", "a") == "\"a\"")
		want(fmt.Sprintf("%d %v %t %s", 1, true, false, s) == "1 true false "+s)
	case 41:
		want(fmt.Sprintf("%5d|%-5s|%05d|%x|%c|%U", 12, "ab", 7, 255, 'x', 'x') == "   12|ab   |00007|ff|x|U+0078")
	case 42:
		want(fmt.Sprintf("%+v", 1) == "1" && fmt.Sprintf("%v", []string{"a", "b"}) == "[a b]" && fmt.Sprintf("%v", kind(1)) == "kind")
	case 43:
		want(fmt.Sprint("a", 1, 2, "b") == "a1 2b" && fmt.Sprintln("a", 1) == "a 1\n")
	case 44:
		sc := bufio.NewScanner(strings.NewReader("a\nb" + "c"))
		n := 0
		for sc.Scan() {
			n++
		}
		want(n == 2)
	case 45:
		b, err := io.ReadAll(strings.NewReader(s))
		want(err == nil && string(b) == s)
	case 46:
		var mu sync.Mutex
		var rw sync.RWMutex
		mu.Lock()
		rw.RLock()
		rw.RUnlock()
		mu.Unlock()
		want(mu.TryLock())
	case 47:
		n := 0
		var o sync.Once
		o.Do(func() { n++ })
		o.Do(func() { n++ })
		want(n == 1)
	case 48:
		var m sync.Map
		m.Store("a", 1)
		v, ok := m.Load("a")
		want(ok && v.(int) == 1)
	case 49:
		var n atomic.Int64
		n.Add(2)
		want(n.Load() == 2)
	case 50:
		p := sync.Pool{New: func() any { return new(pair) }}
		x := p.Get().(*pair)
		p.Put(x)
		want(x.v == 0)
	case 51:
		want(reflect.DeepEqual([]string{s}, []string{s}))
		want(!reflect.DeepEqual(map[string]int{"a": 1}, map[string]int{"a": 2}))
	case 52:
		want(utf8.ValidString("é") && utf8.RuneCountInString(s) <= 2 && utf8.RuneLen('é') == 2)
		_ = utf8.ValidString(s)
	case 53:
		n := 0
		for range s {
			n++
		}
		want(n == len([]rune(s)) && n == utf8.RuneCountInString(s))
	case 54:
		want(unicode.IsLetter('a') && unicode.IsDigit('1') && unicode.IsPrint('a') && unicode.ToLower('A') == 'a')
		for _, r := range s {
			_ = unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.IsControl(r) || unicode.IsUpper(r)
		}
	case 55:
		l := []string{"b", s, "a"}
		sort.Sort(sort.StringSlice(l))
		want(l[0] <= l[1] && l[1] <= l[2])
		sort.Sort(sort.Reverse(sort.StringSlice(l)))
		want(l[0] >= l[1])
		want(sort.SearchStrings([]string{"a", "b"}, "b") == 1)
	case 56:
		i, ok := slices.BinarySearch([]string{"a", "b"}, s)
		want(!ok || i < 2)
	case 57:
		w := bytes.TrimSpace([]byte(s))
		want(string(w) == strings.TrimSpace(s))
		want(bytes.Contains([]byte("a"+s), []byte("a")))
	case 58:
		want(strings.Title("ab") == "Ab")
		want(strings.Count("aba", "a") == 2 && strings.SplitN("a,b,c", ",", 2)[1] == "b,c")
	case 59:
		type key struct{ a, b string }
		m := map[key]int{{s, "x"}: 1}
		want(m[key{s, "x"}] == 1)
	case 60:
		m := map[string]map[string]struct{}{}
		m[s] = map[string]struct{}{"x": {}}
		delete(m[s], "x")
		clear(m)
		want(len(m) == 0)
	case 61:
		f := func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("got %v", r)
				}
			}()
			panic("x")
		}
		want(f().Error() == "got x")
	case 62:
		ch := make(chan int, 2)
		ch <- 1
		close(ch)
		v, ok := <-ch
		want(ok && v == 1)
	case 63:
		ch := make(chan string)
		go func() { ch <- s }()
		want(<-ch == s)
	case 64:
		var wg sync.WaitGroup
		n := 0
		wg.Add(1)
		go func() { defer wg.Done(); n++ }()
		wg.Wait()
		want(n == 1)
	case 65:
		t := time.Now()
		want(time.Since(t) >= 0)
	case 66:
		for i := range 3 {
			want(i < 3)
		}
	case 67:
		r := strings.NewReader(s)
		n := 0
		for {
			_, err := r.ReadByte()
			if err == io.EOF {
				break
			}
			n++
		}
		want(n == len(s))
	case 68:
		want(strings.HasSuffix("x"+s, s) && strings.Trim(" a ", " ") == "a" && strings.TrimRight("a/", "/") == "a" && strings.TrimLeft("//a", "/") == "a")
		_ = strings.Trim(s, "\"'")
	case 69:
		b := strconv.AppendInt(nil, 12, 10)
		b = strconv.AppendQuote(b, "a")
		b = append(b, s...)
		want(string(b) == "12\"a\""+s)
	case 70:
		want(strings.ToValidUTF8("a", "") == "a")
		_ = strings.ToValidUTF8(s, "?")
	case 71:
		want(strings.Join(slices.Collect(strings.SplitSeq("a,b", ",")), "") == "ab")
	case 72:
		m := maps.Collect(slices.All([]string{"a"}))
		want(m[0] == "a")
		c := maps.Clone(m)
		want(maps.Equal(m, c))
		maps.DeleteFunc(c, func(k int, v string) bool { return true })
		maps.Copy(c, m)
		want(len(c) == 1)
	case 73:
		want(cmp.Or("", s, "x") != "" && cmp.Compare(1, 2) < 0)
	case 74:
		var b strings.Builder
		w := tabwriter.NewWriter(&b, 0, 8, 1, ' ', 0)
		fmt.Fprintln(w, "a\tb")
		w.Flush()
		want(b.String() == "a b\n")
	case 75:
		want(fmt.Sprintf("%s|%v|%+v", &myErr{s}, pair{"a", 1}, pair{"a", 1}) == s+"|{a 1}|{k:a v:1}")
	case 76:
		want(fmt.Sprintf("%[2]s %[1]s", "a", "b") == "b a" && fmt.Sprintf("%*d", 3, 1) == "  1" && fmt.Sprintf("%.2s", "abc") == "ab")
	case 77:
		want(fmt.Sprintf("%T", s) == "string" && fmt.Sprintf("%v", map[string]int{"a": 1}) == "map[a:1]")
	case 78:
		w := bufio.NewWriter(&strings.Builder{})
		w.WriteString(s)
		want(w.Flush() == nil)
	case 79:
		var n int
		c, err := fmt.Sscanf("12", "%d", &n)
		want(c == 1 && err == nil && n == 12)
	}
}
