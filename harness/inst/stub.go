package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// stub is what runs in place of an external command of the script: it notes
// the call, applies the fault the plan has for it, or does the real thing.
func stub(tool string, args []string) int {
	root := os.Getenv("INST_ROOT")
	key := callKey(root, tool, args)
	fault := ""
	for _, l := range strings.Split(os.Getenv("INST_PLAN"), "\n") {
		if k, f, ok := strings.Cut(l, "\t"); ok && k == key {
			fault = f
		}
	}
	note(root, "calls", key)
	// Nothing outside of the scratch directory is touched, whatever the script says.
	for _, a := range args {
		if strings.HasPrefix(a, "/") && !inside(root, a) {
			note(root, "escapes", tool+" "+strings.Join(args, " "))
			return 1
		}
	}
	switch fault {
	case "fail":
		return 1
	case "empty":
		return 0
	case "kill":
		_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
		time.Sleep(time.Minute)
	case "int", "term", "hup":
		sig := map[string]syscall.Signal{"int": syscall.SIGINT, "term": syscall.SIGTERM, "hup": syscall.SIGHUP}[fault]
		_ = syscall.Kill(0, sig)
		time.Sleep(time.Minute)
	}
	if fault != "" {
		note(root, "applied", key+"\t"+fault)
	}
	switch tool {
	case "uname":
		if len(args) > 0 && args[0] == "-m" {
			fmt.Println(os.Getenv("INST_ARCH"))
		} else {
			fmt.Println(os.Getenv("INST_OS"))
		}
		return 0
	case "curl", "wget":
		return download(root, tool, args, fault)
	case "mktemp":
		return real("mktemp", args)
	case "gsha256sum", "sha256sum":
		return real("sha256sum", args)
	case "shasum":
		return real("sha256sum", args[2:])
	case "openssl":
		out, err := exec.Command("/usr/bin/sha256sum", args[2:]...).Output()
		if err != nil {
			return 1
		}
		fmt.Printf("SHA2-256(%s)= %s\n", args[2], strings.Fields(string(out))[0])
		return 0
	case "unzip":
		return unzip(args[len(args)-1], fault == "partial")
	case "tar":
		if fault == "partial" {
			_ = exec.Command("/usr/bin/tar", append(args, "bab")...).Run()
			_ = os.Truncate("bab", 7)
			return 2
		}
		return real("tar", args)
	case "install":
		if fault == "partial" {
			if args[0] != "-d" {
				dst := filepath.Join(args[len(args)-1], filepath.Base(args[len(args)-2]))
				if st, err := os.Stat(args[len(args)-1]); err != nil || !st.IsDir() {
					dst = args[len(args)-1]
				}
				_ = os.Remove(dst) // as coreutils does
				_ = os.WriteFile(dst, []byte("#!/bin"), 0o755)
			}
			return 1
		}
		return real("install", args)
	}
	return real(tool, args)
}

// callKey names a call: the tool, its arguments and how often it was called so.
func callKey(root, tool string, args []string) string {
	text := tool
	for _, a := range args {
		if i := strings.Index(a, root); i >= 0 {
			a = a[:i] + "@" + a[i+len(root):]
			if j := strings.Index(a, "/tmp/tmp."); j >= 0 {
				// the random part of a temporary name
				end := j + len("/tmp/tmp.")
				for end < len(a) && a[end] != '/' {
					end++
				}
				a = a[:j] + "/tmp/T" + a[end:]
			}
		}
		text += " " + a
	}
	f := filepath.Join(root, "count", strings.NewReplacer("/", "%", " ", "_", "\n", "~").Replace(text))
	if len(f) > 4000 || len(filepath.Base(f)) > 200 {
		f = filepath.Join(root, "count", fmt.Sprintf("%x", len(text)))
	}
	for n := 1; ; n++ {
		h, err := os.OpenFile(fmt.Sprintf("%s#%d", f, n), os.O_CREATE|os.O_EXCL, 0o644)
		if err == nil {
			_ = h.Close()
			return fmt.Sprintf("%s #%d", strings.ReplaceAll(strings.ReplaceAll(text, "\n", "~"), "\t", "~"), n)
		}
		if !os.IsExist(err) {
			return text
		}
	}
}

func note(root, file, line string) {
	if f, err := os.OpenFile(filepath.Join(root, file), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644); err == nil {
		_, _ = f.WriteString(line + "\n")
		_ = f.Close()
	}
}

func inside(root, p string) bool {
	p = filepath.Clean(p)
	return p == root || strings.HasPrefix(p, root+"/")
}

func real(tool string, args []string) int {
	for _, d := range []string{"/usr/bin/", "/bin/"} {
		if _, err := os.Stat(d + tool); err == nil {
			_ = syscall.Exec(d+tool, append([]string{tool}, args...), []string{"PATH=/usr/bin:/bin", "LC_ALL=C", "HOME=" + os.Getenv("HOME"), "TMPDIR=" + os.Getenv("TMPDIR")})
		}
	}
	return 127
}

// download serves the release from a directory.
func download(root, tool string, args []string, fault string) int {
	var out, url string
	for i := 0; i < len(args); i++ {
		switch a := args[i]; {
		case a == "-o" || a == "-O":
			i++
			out = args[i]
		case a == "-w" || a == "-H" || a == "--header":
			i++
		case !strings.HasPrefix(a, "-"):
			url = a
		}
	}
	note(root, "urls", url)
	path, ok := strings.CutPrefix(url, "https://github.com/bab-sh/bab/releases/")
	code := "200"
	body, err := os.ReadFile(filepath.Join(root, "server", strings.ReplaceAll(path, "/", "%")))
	if !ok || err != nil {
		code, body = "404", []byte("Not Found")
	}
	rc := 0
	switch fault {
	case "404":
		code, body = "404", []byte("Not Found")
	case "500":
		code, body = "500", []byte("<html>\"tag_name\":\"v9.9.9\"</html>")
	case "cut": // the connection breaks: a part of the file, and the command fails
		body, rc = body[:len(body)/2], 18
	case "short": // a proxy that ends early: the command sees no failure
		body = body[:len(body)/2]
	case "flip":
		body = bytes.Clone(body)
		if len(body) > 0 {
			body[len(body)/2] ^= 1
		}
	case "zero":
		body = nil
	case "other": // something else that is well formed
		if b, err := os.ReadFile(filepath.Join(root, "other", strings.ReplaceAll(path, "/", "%"))); err == nil {
			body = b
		}
	case "html":
		body = []byte("<html><body>login</body></html>\n")
	case "nofile":
		body = nil
		out = ""
	}
	if code != "200" && tool == "wget" {
		rc = 8
		body = nil
	}
	if out != "" {
		if !inside(root, out) && !strings.HasPrefix(out, "tmp/") {
			note(root, "escapes", tool+" "+strings.Join(args, " "))
			return 1
		}
		if err := os.WriteFile(out, body, 0o644); err != nil {
			return 23
		}
	}
	if tool == "curl" {
		fmt.Print(code)
	}
	return rc
}

func unzip(file string, partial bool) int {
	z, err := zip.OpenReader(file)
	if err != nil {
		return 9
	}
	defer z.Close()
	for _, f := range z.File {
		r, err := f.Open()
		if err != nil {
			return 3
		}
		b, err := io.ReadAll(r)
		if err != nil {
			return 3
		}
		if partial {
			b = b[:len(b)/2]
		}
		if err := os.WriteFile(filepath.Base(f.Name), b, 0o755); err != nil {
			return 50
		}
		if partial {
			return 3
		}
	}
	return 0
}
