package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"github.com/textwire/textwire/v2/lexer"
	"github.com/textwire/textwire/v2/parser"
)

func init() {
	register(&Prop{
		ID: "C18", Quick: 12000, Thorough: 400000,
		Rule: "registration: trees of up to 30 files (1 in 40 up to 260, 1 in 320 up to 2100; single files up to 4 MB) (depth up to 6; templates, layouts, other extensions, names in which the extension or the directory name occurs elsewhere, dots, spaces, quotes, backslashes, ~, non-ASCII, files over 64 KB, directories named like templates, links to files) x 20 extensions x 14 spellings of the directory from several working directories: every template renders its own content under its relative name, layouts and everything else are not found; " +
			"faults: every file of a valid tree (pages, nested pages, layout, components, unused file) x {deleted, truncated (16 prefixes, thorough all), garbage, empty, dangling link, link loop, directory in its place, syntax error of 9 kinds}, one at a time, then repaired and loaded again in the same process; " +
			"files: EvaluateFile against EvaluateString of the same bytes, in sequences that rewrite one path (also with the same size and time stamp); " +
			"monitors: nil Template iff error, no panic/hang (watchdog), the error names the faulty file or its name, exact rendered content; distinct = tree or (tree, file, fault)",
		Assumptions: []string{"a template directory with a leading slash is not tried (Configure strips it)", "a truncated file must fail to load when the parser rejects it on its own", "the sandbox runs as root: unreadable means dangling, looping or a directory"},
		Run:         c18,
		Fresh:       c18Fresh,
	})
}

var c18Exts = []string{".tw", ".tw.html", ".html", ".t", ".tw.tw", ".html.tw", "tw", ".TW", ".x-y", ".é", ".tmpl", "_tw", ".a.b.c.d", ".t w", ".tw~", "-page.html", ".1", ".go.html", ".(x)", ".*"}

// spellings of the directory: cwd (below the scratch directory) and TemplateDir
// for the real directory base/v.
func c18Spell(r interface{ IntN(int) int }, base, v string) (cwd, dir string) {
	in := base + "/" + v
	switch r.IntN(14) {
	case 0:
		return ".", in
	case 1:
		return ".", in + "/"
	case 2:
		return ".", "./" + in
	case 3:
		return ".", in + "//"
	case 4:
		return ".", base + "/../" + in
	case 5:
		return ".", "./" + base + "/sub/../" + v + "/."
	case 6:
		return base, v
	case 7:
		return base, "./" + v + "///"
	case 8:
		return base + "/sub", "../" + v
	case 9:
		return base + "/sub", "../sub/../" + v + "/"
	case 10:
		return in, "."
	case 11:
		return in, "./"
	case 12:
		return base + "/sub", "./../" + v
	default:
		return base + "/" + v, "../" + v
	}
}

// c18Fresh loads in a process that has never been configured; arg is the
// directory and the fields to set.
func c18Fresh(arg string) string {
	a := strings.Split(arg, "\n")
	must(os.Chdir(a[0]))
	c := &config.Config{TemplateDir: a[1], TemplateExt: a[2]}
	if a[1]+a[2] == "" && a[3] == "nil" {
		c = nil
	}
	tpl, err := textwire.NewTemplate(c)
	if err != nil {
		return "load: " + err.Error()
	}
	s := ""
	for _, n := range []string{"home", "sub/x", "y", "z", "home.tw.html", "templates/home"} {
		out, ferr := tpl.String(n, nil)
		if ferr != nil {
			out = "fail"
		}
		s += n + "=" + out + ";"
	}
	return s
}

// c18Defaults checks the documented directory and extension.
func c18Defaults(w *W, i int) {
	w.c18Clean()
	defer w.c18Clean()
	for f, s := range map[string]string{"templates/home.tw.html": "A{{ 1 + 1 }}", "templates/sub/x.tw.html": "B", "templates/y.tw": "C", "views/z.tw.html": "D", "views/y.tw": "E", "home.tw.html": "F"} {
		w.c18Write("", f, s)
	}
	const none = "home=fail;sub/x=fail;y=fail;z=fail;home.tw.html=fail;templates/home=fail;"
	for _, c := range []struct{ dir, ext, mode, want string }{
		{"", "", "nil", "home=A2;sub/x=B;y=fail;z=fail;home.tw.html=fail;templates/home=fail;"},
		{"", "", "", "home=A2;sub/x=B;y=fail;z=fail;home.tw.html=fail;templates/home=fail;"},
		{"views", "", "", "home=fail;sub/x=fail;y=fail;z=D;home.tw.html=fail;templates/home=fail;"},
		{"", ".tw", "", "home=fail;sub/x=fail;y=C;z=fail;home.tw.html=fail;templates/home=fail;"},
		{"views", ".tw", "", "home=fail;sub/x=fail;y=E;z=fail;home.tw.html=fail;templates/home=fail;"},
		{"templates", ".nosuch", "", none},
	} {
		exe, _ := os.Executable()
		out, err := exec.Command(exe, "fresh", "C18", filepath.Join(w.Dir, c18Base)+"\n"+c.dir+"\n"+c.ext+"\n"+c.mode).Output()
		w.Evals++
		w.Feat("fresh processes with defaults")
		if err != nil || string(out) != c.want {
			w.Fail("wrong templates with the default configuration", "TemplateDir", c.dir, "TemplateExt", c.ext, "config", c.mode, "expected", c.want, "got", string(out), "error", errStr(err))
		}
	}
}

func c18(w *W, i int) {
	if i == 0 {
		c18Defaults(w, i)
	}
	switch i % 4 {
	case 0, 1:
		c18Register(w, i)
	case 2:
		c18Faults(w, i)
	case 3:
		c18Files(w, i)
	}
	os.Chdir(w.Dir)
}

const c18Base = "c18" // the same paths in every case: nothing may be remembered

func (w *W) c18Write(v, file, src string) {
	p := filepath.Join(w.Dir, c18Base, v, file)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(src), 0o644); err != nil {
		panic(err)
	}
}

func (w *W) c18Clean() {
	if strings.HasPrefix(filepath.Base(w.Dir), "vh-") {
		os.RemoveAll(filepath.Join(w.Dir, c18Base))
	}
	os.MkdirAll(filepath.Join(w.Dir, c18Base, "sub"), 0o755)
}

func (w *W) c18Load(dir, ext, what string) (tpl *textwire.Template, err error, ok bool) {
	ok = w.Guard(what, func() {
		w.Evals++
		tpl, err = textwire.NewTemplate(&config.Config{TemplateDir: dir, TemplateExt: ext})
	})
	if ok && (tpl == nil) == (err == nil) {
		w.Fail("not exactly one of template and error", "template", what, "error", errStr(err))
		return tpl, err, false
	}
	return
}

var c18Stems = []string{"home", "a", "index", "user-card", "x_y", "v1.2", "UPPER", "with space", "é日", "views", "templates", "a+b", "50%", "layouts", "components", "new", "tw", "html", "x.tw.html.old", "(1)", "[z]", "c18", ".hidden", ".d", "_p", "t~", "#q", "..x", "node_modules", "vendor", "x.bak", "error", "con", " lead", "trail ", "Home", "a ", "a\tb", "a'b", "a\"b", "{{x}}", "~a", "a\\b", "..."}

func c18Register(w *W, i int) {
	r := w.R
	w.c18Clean()
	defer w.c18Clean()
	ext := c18Exts[r.IntN(len(c18Exts))]
	v := []string{"views", "templates", "t.tw", "html", "v w", "ü", "views/deep/er", "a.b", strings.TrimLeft(ext, ".") + "x"}[r.IntN(9)]
	if v == "x" || strings.ContainsAny(v, "*") {
		v = "views"
	}
	files := map[string]string{} // path -> source
	var all []string
	// no name may lie below a name that is a file
	free := func(f string) bool {
		for _, g := range all {
			if g == f || strings.HasPrefix(g, f+"/") || strings.HasPrefix(f, g+"/") {
				return false
			}
		}
		return true
	}
	put := func(f, src string) bool {
		if !free(f) {
			return false
		}
		all = append(all, f)
		files[f] = src
		return true
	}
	mark := func() string { return fmt.Sprintf("M%dq%d", i, r.IntN(1<<30)) }
	want := map[string]string{}
	var layouts, others []string
	sub := func() string {
		s := ""
		for d := []int{0, 0, 1, 1, 2, 3, 5}[r.IntN(7)]; d > 0; d-- {
			s += append(c18Stems, "d"+ext, "dir.tw", "e.html", ".git", "-")[r.IntN(len(c18Stems)+5)] + "/"
		}
		return s
	}
	lname, cname := "", ""
	if r.IntN(2) == 0 {
		lname = sub() + "lay" + c18Stems[r.IntN(len(c18Stems))]
		m := mark()
		if strings.ContainsAny(lname, "'\"\\") || lname[0] == '~' {
			lname = "lay"
		}
		if put(lname+ext, m+"[@reserve('r')]"+m) {
			layouts = append(layouts, lname)
		} else {
			lname = ""
		}
	}
	if r.IntN(2) == 0 {
		cname = sub() + "cmp" + c18Stems[r.IntN(len(c18Stems))]
		if strings.ContainsAny(cname, "'\"\\") || cname[0] == '~' {
			cname = "cmp"
		}
		if put(cname+ext, "<c "+"{{ 1 + 1 }}>") {
			want[cname] = "<c 2>"
		} else {
			cname = ""
		}
	}
	if cname != "" && r.IntN(3) == 0 {
		// a layout that uses a component is a layout all the same
		if n := sub() + "unused"; put(n+ext, "@component('"+cname+"')@reserve('q')") {
			layouts = append(layouts, n)
		}
	}
	pages := r.IntN(14)
	if r.IntN(40) == 0 {
		pages = 60 + r.IntN(200)
		w.Feat("big tree")
		if r.IntN(8) == 0 {
			pages = 600 + r.IntN(1500)
			w.Feat("very big tree")
		}
	}
	for n := pages; n > 0; n-- {
		name := sub() + c18Stems[r.IntN(len(c18Stems))]
		if pages > 20 && r.IntN(3) == 0 {
			name += letters(r.IntN(9000))
		}
		m := mark()
		src, exp := m+"{{ 2 + 3 }}", m+"5"
		switch r.IntN(6) {
		case 0:
			if lname != "" {
				src = "@use('" + lname + "')@insert('r', '" + m + "')"
				exp = strings.Replace(files[lname+ext], "@reserve('r')", m, 1)
			}
		case 1:
			if cname != "" {
				src, exp = m+"@component('"+cname+"')"+m, m+"<c 2>"+m
			}
		case 2:
			src, exp = "", ""
			if r.IntN(8) == 0 {
				src = m + strings.Repeat("0123456789abcde\n", 1+r.IntN(20000))
				if pages < 20 && r.IntN(20) == 0 {
					src += strings.Repeat("0123456789abcdef", 1<<(14+r.IntN(5))) + m
					w.Feat("file above 1 MB")
				}
				exp = src
			}
		case 3:
			src, exp = "\xef\xbb\xbf"+m+"\r\n\x00", "\xef\xbb\xbf"+m+"\r\n\x00"
		}
		if put(name+ext, src) {
			want[name] = exp
		}
	}
	for n := r.IntN(10); n > 0; n-- { // files that are no templates
		s := c18Stems[r.IntN(len(c18Stems))]
		f := sub() + []string{s, s + ext + ".bak", s + ext + "x", ext + s, s + strings.ToUpper(ext), s + ".txt", s + strings.ReplaceAll(ext, ".", "_"), s + ext + "~", s + ext + " ", "pre" + ext + "." + s, "README.md"}[r.IntN(11)]
		if strings.HasSuffix(f, ext) {
			continue
		}
		if put(f, "{{ broken # @if( "+mark()) {
			others = append(others, f)
		}
	}
	for f, s := range files {
		w.c18Write(v, f, s)
	}
	root := filepath.Join(w.Dir, c18Base, v)
	os.MkdirAll(root, 0o755)
	if r.IntN(6) == 0 && len(want) > 0 { // link to a file
		n := sortedKeys(want)[r.IntN(len(want))]
		if l := "linked" + ext; free(l) {
			os.Symlink(filepath.Join(root, n+ext), filepath.Join(root, l))
			all = append(all, l)
			want["linked"] = want[n]
		}
	}
	os.MkdirAll(filepath.Join(root, "emptydir", "in"+ext), 0o755)
	cwd, dir := c18Spell(r, c18Base, v)
	if v == "views/deep/er" {
		cwd, dir = ".", c18Base+"/"+v+[]string{"", "/", "/../er", "//"}[r.IntN(4)]
	}
	os.Chdir(filepath.Join(w.Dir, cwd))
	what := fmt.Sprintf("cwd %q TemplateDir %q ext %q files %q", cwd, dir, ext, files)
	w.Sample(what)
	w.Key(what)
	tpl, err, fine := w.c18Load(dir, ext, what)
	if !fine {
		return
	}
	if err != nil {
		w.Fail("a valid tree does not load", "template", what, "error", err.Error())
		return
	}
	w.Feat("trees loaded")
	for n, exp := range want {
		out, ferr := tpl.String(n, nil)
		w.Evals++
		if ferr != nil || out != exp {
			w.Fail("a template is not registered under its name", "template", what, "name", n, "expected", exp, "got", out, "error", ferrStr(ferr))
			return
		}
		w.Feat("names rendered")
	}
	wrong := append([]string{}, layouts...)
	for _, f := range all {
		if n := strings.TrimSuffix(f, ext); n+ext == f {
			wrong = append(wrong, f, c18Base+"/"+v+"/"+n, v+"/"+n, filepath.Join(w.Dir, c18Base, v, f), n+".", filepath.Base(n)+"/"+filepath.Base(n))
			if strings.Contains(n, "/") {
				wrong = append(wrong, filepath.Base(n), n[strings.Index(n, "/")+1:])
			}
		} else {
			wrong = append(wrong, f, strings.TrimSuffix(f, filepath.Ext(f)))
			if k := strings.Index(f, ext); k >= 0 {
				wrong = append(wrong, f[:k], f[:k]+f[k+len(ext):])
			}
			wrong = append(wrong, strings.ReplaceAll(f, ext, ""))
		}
	}
	for n := range want {
		wrong = append(wrong, "/"+n, n+"/", "./"+n, " "+n, n+" ", strings.ToUpper(n), "x/../"+n, n+"\x00", strings.ReplaceAll(n, "/", "\\"), strings.ReplaceAll(n, "/", "//"))
	}
	sort.Strings(wrong)
	wrong = append(wrong, "emptydir/in", "emptydir", "nosuch", "sub", c18Base)
	for _, n := range wrong {
		if _, ok := want[n]; ok {
			continue
		}
		out, ferr := tpl.String(n, nil)
		w.Evals++
		if ferr == nil || out != "" {
			w.Fail("a name that is no template renders", "template", what, "name", n, "got", out)
			return
		}
		if !strings.Contains(strings.ToLower(ferr.Message()), "not found") {
			w.Fail("an unknown name is not reported as not found", "template", what, "name", n, "error", ferrStr(ferr))
			return
		}
		w.Feat("names not found")
	}
	_ = others
}

// ---- faults ----

var c18Syntax = []string{"{{ 1 + }}", "@if(", "{{ # }}", "{{ 'unclosed", "@each(x in [1])never closed", "@end", "{{ x", "@component('", "{{ }}"}

func c18Faults(w *W, i int) {
	r := w.R
	w.c18Clean()
	defer w.c18Clean()
	ext := []string{".tw", ".tw.html", ".html", ".t"}[r.IntN(4)]
	v := []string{"views", "templates", "a/b"}[r.IntN(3)]
	m := func() string { return fmt.Sprintf("M%dq%d", i, r.IntN(1<<30)) }
	a, b, c := m(), m(), m()
	lay := []string{"layouts/main", "base", "layouts/deep/er/l"}[r.IntN(3)]
	comp := []string{"components/card", "card", "components/ui/x.y"}[r.IntN(3)]
	ref := func(n, dir string) string {
		if s := strings.TrimPrefix(n, dir+"/"); s != n && r.IntN(2) == 0 {
			return "~" + s
		}
		return n
	}
	files := map[string]string{
		lay:            "<html>" + a + "\n@reserve('title')|@reserve('body')\n{{ 'lay' }}</html>",
		comp:           "<card>" + b + "\n{{ k }}@if(k == 1)one@else other@end\n@slot('s')</card>",
		"page":         "@use('" + ref(lay, "layouts") + "')\n@insert('title', '" + c + "')\n@insert('body')@component('" + ref(comp, "components") + "', {k: 1})\n@slot('s')in@end\n@end\n@end",
		"blog/plain":   a + "\n@each(x in [1, 2]){{ x }},@end\n{{-- c --}}{{ {a: 'q'}.a }}" + b,
		"aaa/other":    "@component('" + comp + "', {k: 2})",
		"z/deep/l/end": "z\\{{ {{ 'z' }}",
	}
	crowd := 0
	if r.IntN(40) == 0 { // the faulty file is one of many
		crowd = 20 + r.IntN(150)
		w.Feat("many files besides the faulty one")
	}
	for n := 0; n < crowd; n++ {
		files[[]string{"crowd/", "", "m/n/"}[n%3]+"p"+letters(n*31)] = "p{{ 1 }}"
	}
	want := map[string]string{
		"page":         "<html>" + a + "\n" + c + "|<card>" + b + "\n1one\nin</card>\n\n\nlay</html>",
		"blog/plain":   a + "\n1,2,\nq" + b,
		"aaa/other":    "<card>" + b + "\n2 other\n</card>",
		"z/deep/l/end": "z{{ z",
	}
	want["page"] = ""
	delete(want, "page")
	write := func() {
		for f, s := range files {
			w.c18Write(v, f+ext, s)
		}
	}
	write()
	cwd, dir := ".", c18Base+"/"+v+[]string{"", "/"}[r.IntN(2)]
	if v != "a/b" {
		cwd, dir = c18Spell(r, c18Base, v)
	}
	os.Chdir(filepath.Join(w.Dir, cwd))
	what := fmt.Sprintf("cwd %q TemplateDir %q ext %q files %q", cwd, dir, ext, files)
	pageWant := ""
	good := func(after string) bool {
		tpl, err, fine := w.c18Load(dir, ext, what+after)
		if !fine {
			return false
		}
		if err != nil {
			w.Fail("a valid tree does not load", "template", what, "after", after, "error", err.Error())
			return false
		}
		for n, exp := range want {
			out, ferr := tpl.String(n, nil)
			if ferr != nil || out != exp {
				w.Fail("wrong content", "template", what, "after", after, "name", n, "expected", exp, "got", out, "error", ferrStr(ferr))
				return false
			}
		}
		out, ferr := tpl.String("page", nil)
		if pageWant == "" {
			pageWant = out
			for _, k := range []string{"<html>" + a, c + "|", "<card>" + b, "1one", "in</card>", "lay</html>"} {
				if !strings.Contains(out, k) {
					w.Fail("wrong content", "template", what, "after", after, "name", "page", "expected", k, "got", out, "error", ferrStr(ferr))
					return false
				}
			}
		}
		if ferr != nil || out != pageWant {
			w.Fail("wrong content", "template", what, "after", after, "name", "page", "expected", pageWant, "got", out, "error", ferrStr(ferr))
			return false
		}
		return true
	}
	if !good("") {
		return
	}
	w.Sample(what)
	root := filepath.Join(w.Dir, c18Base, v)
	names := sortedKeys(files)
	for _, n := range names {
		src := files[n]
		if crowd > 0 && r.IntN(4) > 0 {
			continue
		}
		path := filepath.Join(root, n+ext)
		faults := []string{"deleted", "garbage", "empty", "dangling", "loop", "dir", "dir with files"}
		for k := 0; k < 3; k++ {
			faults = append(faults, fmt.Sprint("syntax ", r.IntN(len(c18Syntax)), " ", r.IntN(len(src)+1)))
		}
		if w.Tier == "thorough" {
			for k := 0; k <= len(src); k++ {
				faults = append(faults, fmt.Sprint("cut ", k))
			}
		} else {
			for k := 0; k < 10; k++ {
				faults = append(faults, fmt.Sprint("cut ", r.IntN(len(src)+1)))
			}
		}
		for _, f := range faults {
			if r.IntN(3) > 0 && w.Tier != "thorough" {
				continue
			}
			os.RemoveAll(path)
			now := "" // content of the file
			isFile := false
			must := "" // what must be reported: "syntax", "absent"
			used := n == lay || n == comp
			switch {
			case f == "deleted":
				if used {
					must = "absent"
				}
			case f == "garbage":
				now, isFile = "\x00\xff{{ ]] @@ # "+strings.Repeat("}{", 20), true
				must = "syntax"
			case f == "empty":
				isFile = true
			case f == "dangling":
				must = "absent"
				os.Symlink(filepath.Join(root, "nowhere", "x"), path)
			case f == "loop":
				must = "absent"
				os.Symlink(path, path)
			case f == "dir" || f == "dir with files":
				os.MkdirAll(path, 0o755)
				if f != "dir" {
					os.WriteFile(filepath.Join(path, "inner"+ext), []byte("inner"), 0o644)
				}
				if used {
					must = "absent"
				}
			case strings.HasPrefix(f, "syntax"):
				var k, at int
				fmt.Sscanf(f, "syntax %d %d", &k, &at)
				now, isFile = src[:at]+"\n"+c18Syntax[k]+"\n"+src[at:], true
			case strings.HasPrefix(f, "cut"):
				var at int
				fmt.Sscanf(f, "cut %d", &at)
				now, isFile = src[:at], true
			}
			if isFile {
				w.c18Write(v, n+ext, now)
				bad := false
				if !w.Guard("parse "+now, func() {
					p := parser.New(lexer.New(now), "")
					p.ParseProgram()
					bad = p.HasErrors()
				}) {
					return
				}
				if bad {
					must = "syntax"
				} else if must == "syntax" {
					w.Fail("garbage parses", "template", now)
					return
				}
			}
			desc := what + "\nfault: " + n + " " + f
			tpl, err, fine := w.c18Load(dir, ext, desc)
			if !fine {
				return
			}
			w.Key(desc)
			kind := strings.SplitN(f, " ", 2)[0]
			w.Feat("fault " + kind + " " + map[bool]string{true: "fails", false: "loads"}[err != nil])
			if must != "" && err == nil {
				w.Fail("a bad file does not fail loading", "template", desc, "content", now)
				return
			}
			if err != nil {
				e := err.Error()
				if must != "" && !strings.Contains(e, path) && !(must == "absent" && (strings.Contains(e, "'"+n+"'") || strings.Contains(e, "'~"+filepath.Base(n)+"'") || strings.Contains(e, n+ext))) {
					w.Fail("the error does not identify the faulty file", "template", desc, "content", now, "error", e)
					return
				}
				// a file that is valid by itself breaks only the files that use it
				if must == "" && !used && !isFile {
					w.Fail("a missing file that nothing uses breaks loading", "template", desc, "error", e)
					return
				}
			} else {
				// the other pages are not affected
				for o, exp := range want {
					if o == n || used && o == "aaa/other" {
						continue
					}
					out, ferr := tpl.String(o, nil)
					if ferr != nil || out != exp {
						w.Fail("wrong content next to a changed file", "template", desc, "name", o, "expected", exp, "got", out, "error", ferrStr(ferr))
						return
					}
				}
				if !isFile {
					if out, ferr := tpl.String(n, nil); ferr == nil {
						w.Fail("a missing template renders", "template", desc, "got", out)
						return
					}
				}
				if f == "dir with files" {
					if out, ferr := tpl.String(n+ext+"/inner", nil); ferr != nil || out != "inner" {
						w.Fail("a template in a directory named like a template is lost", "template", desc, "got", out, "error", ferrStr(ferr))
						return
					}
				}
			}
			os.RemoveAll(path)
			w.c18Write(v, n+ext, src)
			if r.IntN(3) == 0 && !good(" after repairing "+n+" "+f) {
				return
			}
		}
	}
	good(" at the end")
	// two faults at once: one of them is identified
	x, y := names[r.IntN(len(names))], names[r.IntN(len(names))]
	w.c18Write(v, x+ext, files[x]+"{{ 1 + }}")
	w.c18Write(v, y+ext, files[y]+"{{ 1 + }}")
	_, err, fine := w.c18Load(dir, ext, what+x+y)
	if fine && (err == nil || !strings.Contains(err.Error(), filepath.Join(root, x+ext)) && !strings.Contains(err.Error(), filepath.Join(root, y+ext))) {
		w.Fail("the error does not identify the faulty file", "template", what, "files", x+" "+y, "error", errStr(err))
	}
}

// ---- files by path ----

func c18Files(w *W, i int) {
	r := w.R
	w.c18Clean()
	defer w.c18Clean()
	data := map[string]any{"n": 5, "s": "str", "obj": map[string]any{"a": 1}, "arr": []int{1, 2}}
	norm := func(out string, err error) string {
		if err == nil {
			return "ok " + out
		}
		// the file may be named in the error
		s := err.Error()
		if m := errLine.FindStringSubmatch(s); m != nil {
			s = "line " + m[2] + s[len(m[0]):]
		}
		return "error " + out + s
	}
	names := []string{"f.tw", "noext", "sub/f.html", ".hidden", "sp ace.é", "f.tw.bak", "f.tw ", " f.tw", "f.tw\t", "~f", "%41.tw", "f\\.tw"}
	stamp := false
	var last string
	for k := 0; k < 6; k++ {
		name := names[r.IntN(len(names))]
		if r.IntN(2) == 0 {
			name = names[0]
		}
		src := ""
		switch r.IntN(7) {
		case 0:
			g := &uGen{r: r, vars: []string{"n", "s", "obj", "arr"}}
			src, _ = Source(r, randStyle(r), g.stmts(2, 1+r.IntN(3)))
			if strings.Contains(src, "shuffle") || strings.Contains(src, "rand") {
				src = "{{ n }}"
			}
		case 1:
			src = c13Noise(r, r.IntN(6), map[string]bool{})
		case 2:
			src = "\xef\xbb\xbf{{ n }}\r\n\x00 \xff" + strings.Repeat("x", r.IntN(100000)) + "{{ s }}\n\n\n"
		case 3:
			src = c13Noise(r, r.IntN(4), map[string]bool{}) + c18Syntax[r.IntN(len(c18Syntax))] + "\n"
		case 4:
			src = fmt.Sprintf("%s{{ n + %d }}", c13Noise(r, 1, map[string]bool{}), 100+r.IntN(900))
		case 5:
			src = ""
		case 6: // the same size as before
			b := []byte(last)
			for j := range b {
				if b[j] >= '1' && b[j] <= '8' {
					b[j]++
				}
			}
			src = string(b)
		}
		if k == 2 || r.IntN(5) == 0 {
			src += []string{"\n", "\r\n", "\x00", "\x1a", " ", "\t", "\n\n", "\xef\xbb\xbf", "\xff", "\\", "{", "@", "\u2028"}[r.IntN(13)]
		}
		if r.IntN(8) == 0 {
			src = []string{"\n", "\xef\xbb\xbf", "\x00", "\xff\xfe", " ", "#!/bin/x\n", "\r"}[r.IntN(7)] + src
		}
		last = src
		if r.IntN(600) == 0 { // large
			src += strings.Repeat("{{ n }}0123456789abcdef\n", 1<<(13+r.IntN(5))) + "end{{ s }}"
			w.Feat("large file evaluated")
		}
		path := filepath.Join(w.Dir, c18Base, name)
		w.c18Write("", name, src)
		if st, err := os.Stat(path); err == nil && stamp {
			old := st.ModTime().Truncate(1e9 * 3600)
			os.Chtimes(path, old, old)
		}
		stamp = r.IntN(2) == 0
		arg := path
		switch r.IntN(5) {
		case 0:
			arg = filepath.Join(c18Base, name)
		case 1:
			arg = w.Dir + "/" + c18Base + "//sub/../" + name
		}
		var got, want string
		if !w.Guard("EvaluateFile "+src, func() {
			w.Evals += 2
			o, err := textwire.EvaluateFile(arg, data)
			got = norm(o, err)
			o, err = textwire.EvaluateString(src, data)
			want = norm(o, err)
		}) {
			return
		}
		w.Key(src)
		w.Feat("file evaluated: " + strings.SplitN(want, " ", 2)[0])
		if got != want {
			w.Fail("a file by path and its content differ", "template", src, "path", arg, "expected", want, "got", got)
			return
		}
	}
	missing := filepath.Join(w.Dir, c18Base, "nosuch.tw")
	for _, p := range []string{missing, filepath.Join(w.Dir, c18Base, "sub"), ""} {
		var out string
		var err error
		if !w.Guard("EvaluateFile "+p, func() { w.Evals++; out, err = textwire.EvaluateFile(p, data) }) {
			return
		}
		if err == nil || out != "" || p != "" && !strings.Contains(err.Error(), p) {
			w.Fail("evaluating a missing file", "path", p, "got", out, "error", errStr(err))
			return
		}
	}
	sort.Strings(names)
	// a template directory that does not exist
	if i%8 == 3 {
		_, err, fine := w.c18Load(c18Base+"/nosuchdir", ".tw", "missing directory")
		if fine && err == nil {
			w.Fail("a missing directory loads", "template", "nosuchdir")
		}
	}
}
