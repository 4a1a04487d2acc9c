package kit

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/http/httptest"
	"path"
	"sort"
	"strings"
	"testing/fstest"
	"testing/iotest"
	"text/template"
	"time"
)

// refFS makes in-memory file system with the tree, modes and times
// are taken from given file system.
func refFS(fsys fs.FS, t Tree) (m fstest.MapFS, err error) {
	m = fstest.MapFS{}
	var fi fs.FileInfo
	for name, data := range t {
		if fi, err = fs.Stat(fsys, name); err != nil {
			return
		}
		m[name] = &fstest.MapFile{Data: []byte(data), Mode: fi.Mode(), ModTime: fi.ModTime()}
	}
	for _, d := range t.Dirs() {
		if fi, err = fs.Stat(fsys, d); err != nil {
			return
		}
		m[d] = &fstest.MapFile{Mode: fi.Mode(), ModTime: fi.ModTime()}
	}
	return
}

type httpReq struct {
	method, url string
	hdr         [2]string
}

func httpReqs(t Tree) (list []httpReq) {
	var urls = []string{"/", "/nope", "/nope/"}
	for _, d := range t.Dirs() {
		if d != "." {
			urls = append(urls, "/"+d, "/"+d+"/", "/"+d+"/nope", "/"+d+"/index.html", "/"+d+"/..", "//"+d)
		}
	}
	for name := range t {
		urls = append(urls, "/"+name, "/"+name+"/", "/"+name+"/x")
		var n = len(t[name])
		for i := 0; i <= n; i++ {
			list = append(list,
				httpReq{"GET", "/" + name, [2]string{"Range", fmt.Sprintf("bytes=%d-", i)}},
				httpReq{"GET", "/" + name, [2]string{"Range", fmt.Sprintf("bytes=-%d", i)}})
			for j := i - 1; j <= n; j++ {
				list = append(list, httpReq{"GET", "/" + name, [2]string{"Range", fmt.Sprintf("bytes=%d-%d", i, j)}})
			}
		}
		list = append(list,
			httpReq{"GET", "/" + name, [2]string{"If-Modified-Since", time.Now().Add(time.Hour).UTC().Format(http.TimeFormat)}},
			httpReq{"GET", "/" + name, [2]string{"If-Modified-Since", time.Unix(1000, 0).UTC().Format(http.TimeFormat)}})
	}
	sort.Strings(urls)
	for _, u := range urls {
		for _, m := range []string{"GET", "HEAD"} {
			list = append(list, httpReq{m, u, [2]string{}})
		}
	}
	return
}

func serve(h http.Handler, q httpReq) string {
	var r = httptest.NewRequest(q.method, q.url, nil)
	if q.hdr[0] != "" {
		r.Header.Set(q.hdr[0], q.hdr[1])
	}
	var w = httptest.NewRecorder()
	h.ServeHTTP(w, r)
	var hd []string
	for k, v := range w.Header() {
		hd = append(hd, k+": "+strings.Join(v, ", "))
	}
	sort.Strings(hd)
	return fmt.Sprintf("%d %q %q", w.Code, hd, w.Body.Bytes())
}

func zipOf(fsys fs.FS) ([]byte, error) {
	var b bytes.Buffer
	var w = zip.NewWriter(&b)
	if err := w.AddFS(fsys); err != nil {
		return nil, err
	}
	var err = w.Close()
	return b.Bytes(), err
}

func tarOf(fsys fs.FS) (list []string, err error) {
	var b bytes.Buffer
	var w = tar.NewWriter(&b)
	if err = w.AddFS(fsys); err != nil {
		return
	}
	w.Close()
	var r = tar.NewReader(&b)
	for {
		var h, err = r.Next()
		if err == io.EOF {
			return list, nil
		}
		if err != nil {
			return nil, err
		}
		d, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		list = append(list, fmt.Sprintf("%s %d %v %v %q", h.Name, h.Size, h.FileInfo().Mode(), h.ModTime.Unix(), d))
	}
}

func walkOf(fsys fs.FS, skip int) (list []string) {
	var n int
	var err = fs.WalkDir(fsys, ".", func(name string, d fs.DirEntry, err error) error {
		if err != nil {
			list = append(list, fmt.Sprint(name, " error"))
			return err
		}
		var base = d.Name()
		if name == "." { // sub-view has name of its directory
			base = "."
		}
		list = append(list, fmt.Sprint(name, " ", d.IsDir(), " ", base, " ", d.Type()))
		if n++; n == skip {
			return fs.SkipDir
		}
		return nil
	})
	return append(list, fmt.Sprint(err))
}

// CheckConsumers compares what users of file systems at the standard library
// make of the given one and of in-memory file system with the same tree.
func CheckConsumers(fsys fs.FS, t Tree) (err error) {
	var ref fstest.MapFS
	if ref, err = refFS(fsys, t); err != nil {
		return
	}
	var h1, h2 = http.FileServer(http.FS(fsys)), http.FileServer(http.FS(ref))
	for _, q := range httpReqs(t) {
		if got, want := serve(h1, q), serve(h2, q); got != want {
			return fmt.Errorf("%s %s %q is served as\n%s, want\n%s", q.method, q.url, q.hdr, got, want)
		}
	}
	var z1, z2 []byte
	if z1, err = zipOf(fsys); err != nil {
		return fmt.Errorf("zip: %w", err)
	}
	if z2, err = zipOf(ref); err != nil {
		return
	}
	if !bytes.Equal(z1, z2) {
		return fmt.Errorf("zip file has %d bytes and differs from the zip file of the same tree with %d bytes", len(z1), len(z2))
	}
	var t1, t2 []string
	if t1, err = tarOf(fsys); err != nil {
		return fmt.Errorf("tar: %w", err)
	}
	if t2, err = tarOf(ref); err != nil {
		return
	}
	if fmt.Sprint(t1) != fmt.Sprint(t2) {
		return fmt.Errorf("tar file has\n%q, want\n%q", t1, t2)
	}
	for i := 0; i <= len(ref)+1; i++ {
		if got, want := walkOf(fsys, i), walkOf(ref, i); fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Errorf("walk with skip at %d gives\n%q, want\n%q", i, got, want)
		}
	}
	for _, d := range t.Dirs() {
		var s, err = fs.Sub(fsys, d)
		if err != nil {
			return fmt.Errorf("sub of %q: %w", d, err)
		}
		r, _ := fs.Sub(ref, d)
		if got, want := walkOf(s, 0), walkOf(r, 0); fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Errorf("walk of sub %q gives\n%q, want\n%q", d, got, want)
		}
		for _, p := range []string{"*.html", "*/*.html", "nope*"} {
			var a, e1 = template.ParseFS(s, p)
			var b, e2 = template.ParseFS(r, p)
			if (e1 == nil) != (e2 == nil) {
				return fmt.Errorf("templates of sub %q by %q: %v, want %v", d, p, e1, e2)
			}
			if e1 == nil && len(a.Templates()) != len(b.Templates()) {
				return fmt.Errorf("templates of sub %q by %q: %s, want %s", d, p, a.DefinedTemplates(), b.DefinedTemplates())
			}
		}
	}
	for name, data := range t {
		var f, err = fsys.Open(name)
		if err != nil {
			return err
		}
		err = iotest.TestReader(f, []byte(data))
		if e := f.Close(); err == nil {
			err = e
		}
		if err != nil {
			return fmt.Errorf("%s: %w", name, err)
		}
		if f, err = http.FS(fsys).Open("/" + name); err != nil {
			return fmt.Errorf("open of %s by http: %w", name, err)
		}
		b, err := io.ReadAll(f)
		f.Close()
		if err != nil || string(b) != data {
			return fmt.Errorf("%s by http has %q, error %v, want %q", name, b, err, data)
		}
		if fi, err := fs.Stat(fsys, name); err != nil || fi.Name() != path.Base(name) {
			return fmt.Errorf("stat of %s: %v", name, err)
		}
	}
	return nil
}
