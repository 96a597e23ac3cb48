package main

// C32: the library leaves the process that uses it alone.

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leave says what a function does to the process, if it is forbidden.
func processEffect(n string) string {
	switch n {
	case "os.Exit", "syscall.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln",
		"syscall.Kill", "(*os.Process).Kill", "(*os.Process).Signal", "syscall.RawSyscall", "syscall.Syscall", "syscall.Exec", "os.FindProcess", "os.StartProcess":
		return "ends or signals a process"
	case "runtime.Goexit":
		return "ends the goroutine of the caller"
	case "log.Panic", "log.Panicf", "log.Panicln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln":
		return "panics"
	case "fmt.Print", "fmt.Printf", "fmt.Println":
		return "writes to the standard output"
	case "fmt.Scan", "fmt.Scanf", "fmt.Scanln":
		return "reads the standard input"
	case "os.Setenv", "os.Unsetenv", "os.Clearenv", "syscall.Setenv", "syscall.Unsetenv", "syscall.Clearenv":
		return "changes the environment"
	case "os.Chdir", "(*os.File).Chdir", "syscall.Chdir", "syscall.Chroot", "syscall.Umask":
		return "changes the directory of the process"
	case "log.SetOutput", "log.SetFlags", "log.SetPrefix", "log/slog.SetDefault", "log/slog.SetLogLoggerLevel":
		return "changes the standard logger"
	case "runtime.GOMAXPROCS", "runtime/debug.SetGCPercent", "runtime/debug.SetMaxStack", "runtime/debug.SetMaxThreads", "runtime/debug.SetMemoryLimit",
		"runtime/debug.SetPanicOnFault", "runtime/debug.SetTraceback", "runtime.LockOSThread":
		return "changes the settings of the runtime"
	case "math/rand.Seed":
		return "changes the state of the random numbers that all share"
	case "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.Create", "os.CreateTemp", "os.WriteFile", "io/ioutil.WriteFile", "io/ioutil.TempFile",
		"os.Mkdir", "os.MkdirAll", "os.MkdirTemp", "io/ioutil.TempDir", "os.Link", "os.Symlink", "os.Chmod", "os.Chown", "os.Lchown", "os.Chtimes",
		"(*os.File).Truncate", "(*os.File).Chmod", "(*os.File).Chown", "syscall.Unlink", "syscall.Rename", "syscall.Truncate", "syscall.Ftruncate":
		return "creates, removes or changes a file"
	case "flag.Parse":
		return "parses the arguments of the program"
	}
	for _, x := range []string{"os/signal.", "os/exec.", "(*os/exec.", "plugin."} {
		if strings.HasPrefix(n, x) {
			return "handles signals or starts programs"
		}
	}
	return ""
}

func init() {
	checks["C32"] = func(r *Report) {
		r.rule("process", "no function of a package that is a library refers to a function of another package that ends, signals or reconfigures the process, writes to its standard output, reads its standard input, or creates or removes files; nor to the standard input and output; nor sets a variable of another package")
		p := r.p
		n := 0
		opens := p.reach(r.named("ogdl.OpenLog"))
		for _, f := range p.fns {
			if f.Pkg == nil || f.Pkg.Pkg.Name() == "main" || f.Blocks == nil {
				continue
			}
			n++
			r.saw(f)
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok {
						if g, ok := globalOf(st.Addr); ok && g.Pkg != nil && !p.repoPkg[g.Pkg.Pkg] {
							r.ob(false, "process", p.short(f), p.insPos(ins), "it sets "+g.String()+", a variable of another package")
						}
					}
					if c, ok := ins.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						if _, dyn := c.Common().Value.(*ssa.Function); dyn {
							if e := callName(c.Common()); e != "" {
								eff := processEffect(e)
								bad := ""
								if eff != "" {
									bad = "it calls " + e + ", which " + eff
								}
								if a := c.Common().Args; e == "os.OpenFile" && len(a) > 1 && !opens[f] {
									if k, ok := a[1].(*ssa.Const); !ok || k.Int64()&int64(os.O_CREATE|os.O_TRUNC|os.O_EXCL) != 0 {
										bad = "it opens a file so that it may be created or cleared, and is not part of OpenLog"
									}
								}
								if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && !p.repoPkg[g.Pkg.Pkg] {
									r.ob(bad == "", "process", p.short(f)+": "+e, p.insPos(ins), bad)
								}
							}
						}
					}
					for _, op := range ins.Operands(nil) {
						switch v := (*op).(type) {
						case *ssa.Function:
							if c, ok := ins.(ssa.CallInstruction); ok && c.Common().Value == *op {
								continue
							}
							if e := processEffect(originName(v)); e != "" {
								r.ob(false, "process", p.short(f)+": "+originName(v), p.insPos(ins), "it refers to "+originName(v)+", which "+e)
							}
						case *ssa.Global:
							if v.Pkg != nil && v.Pkg.Pkg.Path() == "os" && (v.Name() == "Stdout" || v.Name() == "Stdin") {
								r.ob(false, "process", p.short(f)+": os."+v.Name(), p.insPos(ins), "it uses os."+v.Name())
							}
						}
					}
				}
			}
		}
		r.extra["functions"] = n
		r.floor("process", 60)
		r.assume = append(r.assume, "what the functions of the caller (and handlers of a server) do is theirs", "explicit panics are the matter of C01-C05", "calls of other packages are known by their names: what they do inside is not looked at")
	}
}

func originName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	n := f.RelString(nil)
	return strings.TrimSuffix(strings.TrimSuffix(n, "$bound"), "$thunk")
}

// globalOf: the package level variable that an address is in.
func globalOf(v ssa.Value) (*ssa.Global, bool) {
	for {
		switch w := v.(type) {
		case *ssa.Global:
			return w, true
		case *ssa.FieldAddr:
			v = w.X
		case *ssa.IndexAddr:
			if _, ok := w.X.Type().Underlying().(*types.Pointer); !ok {
				return nil, false
			}
			v = w.X
		case *ssa.UnOp:
			// through a pointer kept in a variable
			g, ok := w.X.(*ssa.Global)
			return g, ok
		default:
			return nil, false
		}
	}
}
