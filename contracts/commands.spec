# Contracts for package commands (cmd/cddlc/commands).
package commands

# the k-th line of a text, lines being separated by line feeds
fun srcline(Str, Int) Str

extern bytes.Split(s, sep) (lines)
  requires len(sep) == 1 && at(sep, off(sep)) == 10
  ensures "one piece more than line feeds" len(lines) == 1 + cntall(row(s), 10, off(s), off(s)+len(s)) && 0 <= off(lines) && len(lines) <= cap(lines)
  ensures "the pieces in order" forall(i, off(lines), off(lines)+len(lines), strof(row(at(lines, i)), off(at(lines, i)), len(at(lines, i))) == srcline(strof(row(s), off(s), len(s)), i - off(lines)))

pred ELine(e) = as(e, "*parser.Error").Range.Start.Line
pred EPrefix(e) = "    " + itoa(ELine(e)) + " | "
pred Shown(src, e) = shown(e) + "\n" + EPrefix(e) + srcline(strof(row(src), off(src), len(src)), ELine(e)-1) + "\n" + padl(as(e, "*parser.Error").Range.Start.Column + len(EPrefix(e)), "\u02dc")

func commands.errorStringer(src, errs) (outs)
  safety C08
  nonodes
  requires 0 <= off(src) && len(src) <= cap(src) && 0 <= off(errs) && len(errs) <= cap(errs)
  requires [C08] srclines == 1 + cntall(row(src), 10, off(src), off(src)+len(src))
  requires [C08,C16] forall(i, off(errs), off(errs)+len(errs), isa(at(errs, i), "*parser.Error") && dat(at(errs, i)) != 0)
  requires [C08] forall(i, off(errs), off(errs)+len(errs), PosOK(as(at(errs, i), "*parser.Error").Range.Start))
  ensures [C08] "every diagnostic is shown once" len(outs) == len(errs)
  ensures [C08] "in order, each with the line it starts at" forall(i, 0, len(errs), outs[i] == Shown(src, errs[i]))
  inv [C08] len(phi0) == phi1 + 1
  inv [C08] forall(i, 0, len(phi0), phi0[i] == Shown(src, errs[i]))
  inv [C08] 0 <= off(phi0) && len(phi0) <= cap(phi0)
  inv [C08] len(phi1) == phi0 + 1
  inv [C08] forall(i, 0, len(phi1), phi1[i] == Shown(src, errs[i]))
  inv [C08] 0 <= off(phi1) && len(phi1) <= cap(phi1)

# ---- C16: the commands and the operating system ----

# how many operations failed for a reason that must be reported
ghost bad Int
# the openings of files, in order: path, and the file they returned (0: failed)
ghost nopen Int
ghost opName (Array Int Str)
ghost opFile (Array Int Int)
# 1 if what is written through the handle is all the file holds (opened writable, created, truncated)
ghost opWhole (Array Int Int)
# the configuration in use, and the file it was read from ("": the built-in one)
ghost cfg Int
ghost cfgFrom Str
# the text and the tree of the last parse, its diagnostics
ghost parsedSrc Str
ghost parsedT Int
# the node that a generator visited last
ghost visited (Array Int Int)
# what a file received: its header, and the generator that was printed into it
ghost headed (Array Int Int)
ghost printed (Array Int Int)
# the values encoded into a file
ghost encoded (Array Int Int)
# the generations that succeeded, by genkey(source, output, package)
ghost handled (Array Int Int)
# the working directory
const cwd Str

fun joinpath(Str, Str) Str
fun extn(Str) Str
fun trimsuf(Str, Str) Str
fun fname(Int, Int) Str
fun dirlen(Str) Int
fun dirname(Str, Int) Str
fun globlen(Str) Int
fun globname(Str, Int) Str
# the path an open file was opened with, the file a decoder or encoder works on
fun pathof(Int) Str
fun source(Int) Int
fun sink(Int) Int
# the text of a file that is being read
fun content(Str) Str
# the text of a lexer
fun lexof(Int) Str
fun genkey(Str, Str, Str) Int
# the existence of a path, as last asked
fun absent(Int, Int) Bool
ghost statT (Array Str Int)
ghost statD (Array Str Int)
# errors.Is
fun wraps(Int, Int, Int, Int) Bool

pred Own(err) = err != nil ==> !wraps(tag(err), dat(err), tag(commands.errNoConfiguration), dat(commands.errNoConfiguration))
pred Fails(err) = bad == old(bad) + ite(err != nil, 1, 0) && Own(err)

extern os.Getwd() (dir, err)
  modifies bad
  ensures Fails(err) && (err == nil ==> dir == cwd)
extern os.Stat(name) (fi, err)
  modifies bad, statT, statD
  ensures bad == old(bad) + ite(err != nil && !absent(tag(err), dat(err)), 1, 0) && Own(err)
  ensures statT == store(old(statT), name, tag(err)) && statD == store(old(statD), name, dat(err))
  ensures err == nil ==> fi != nil
extern os.IsNotExist(err) (b)
  ensures b == (err != nil && absent(tag(err), dat(err)))
extern errors.Is(err, target) (b)
  ensures b == ite(err == nil, target == nil, wraps(tag(err), dat(err), tag(target), dat(target)))
  ensures tag(err) == tag(target) && dat(err) == dat(target) ==> b
  ensures err != nil && tag(target) == tag(os.ErrNotExist) && dat(target) == dat(os.ErrNotExist) ==> b == absent(tag(err), dat(err))
extern os.OpenFile(name, flag, perm) (f, err)
  modifies bad, nopen, opName, opFile, opWhole
  ensures Fails(err) && (err == nil ==> f != nil)
  ensures nopen == old(nopen) + 1 && opName == store(old(opName), old(nopen), name) && opFile == store(old(opFile), old(nopen), ite(err == nil, ref(f), 0))
  ensures opWhole == store(old(opWhole), old(nopen), ite(flag == 577 || flag == 578 || flag == 705 || flag == 706 || flag == 1053249 || flag == 1053250, 1, 0))
extern os.Create(name) (f, err)
  modifies bad, nopen, opName, opFile, opWhole
  ensures Fails(err) && (err == nil ==> f != nil)
  ensures nopen == old(nopen) + 1 && opName == store(old(opName), old(nopen), name) && opFile == store(old(opFile), old(nopen), ite(err == nil, ref(f), 0)) && opWhole == store(old(opWhole), old(nopen), 1)
extern os.ReadFile(name) (b, err)
  modifies bad
  ensures Fails(err) && 0 <= off(b) && 0 <= len(b) && len(b) <= cap(b)
  ensures err == nil ==> strof(row(b), off(b), len(b)) == content(name)
extern os.Open(name) (f, err)
  modifies bad
  ensures Fails(err) && (err == nil ==> f != nil && pathof(ref(f)) == name)
extern os.MkdirAll(path, perm) (err)
  modifies bad
  ensures Fails(err)
extern io/ioutil.ReadAll(r) (b, err)
  modifies bad
  ensures Fails(err) && 0 <= off(b) && 0 <= len(b) && len(b) <= cap(b)
  ensures err == nil ==> strof(row(b), off(b), len(b)) == content(pathof(dat(r)))
extern io.ReadAll(r) (b, err)
  modifies bad
  ensures Fails(err) && 0 <= off(b) && 0 <= len(b) && len(b) <= cap(b)
  ensures err == nil ==> strof(row(b), off(b), len(b)) == content(pathof(dat(r)))
extern io/ioutil.ReadDir(dir) (files, err)
  modifies bad
  ensures Fails(err) && 0 <= off(files) && 0 <= len(files) && len(files) <= cap(files)
  ensures err == nil ==> len(files) == dirlen(dir) && forall(i, off(files), off(files)+len(files), fname(tag(at(files, i)), dat(at(files, i))) == dirname(dir, i-off(files)))
iface fs.FileInfo.Name(x) (s)
  nonodes
  ensures s == fname(tag(x), dat(x))
extern path/filepath.Join(elem) (p)
  ensures len(elem) == 2 ==> p == joinpath(at(elem, off(elem)), at(elem, off(elem)+1)) && extn(p) == extn(at(elem, off(elem)+1))
extern path/filepath.Ext(path) (e)
  ensures e == extn(path)
extern strings.TrimSuffix(s, suffix) (t)
  ensures t == trimsuf(s, suffix)
extern path/filepath.Glob(pattern) (files, err)
  modifies bad
  ensures Fails(err) && 0 <= off(files) && 0 <= len(files) && len(files) <= cap(files)
  ensures err == nil ==> len(files) == globlen(pattern) && forall(i, off(files), off(files)+len(files), at(files, i) == globname(pattern, i-off(files)))
extern encoding/json.NewDecoder(r) (d)
  ensures d != nil && source(ref(d)) == dat(r)
extern gopkg.in/yaml.v2.NewDecoder(r) (d)
  ensures d != nil && source(ref(d)) == dat(r)
extern (*encoding/json.Decoder).Decode(d, v) (err)
  modifies bad, cfg, cfgFrom
  ensures Fails(err) && (err == nil ==> cfg == dat(v) && cfgFrom == pathof(source(ref(d))))
extern (*gopkg.in/yaml.v2.Decoder).Decode(d, v) (err)
  modifies bad, cfg, cfgFrom
  ensures Fails(err) && (err == nil ==> cfg == dat(v) && cfgFrom == pathof(source(ref(d))))
extern encoding/json.NewEncoder(w) (e)
  ensures e != nil && sink(ref(e)) == dat(w)
extern (*encoding/json.Encoder).Encode(e, v) (err)
  modifies bad, encoded
  ensures Fails(err) && encoded == store(old(encoded), sink(ref(e)), ite(err == nil, dat(v), 0))
iface io.Writer.Write(w, p) (n, err)
  nonodes
  modifies bad, headed
  ensures Fails(err) && headed == store(old(headed), dat(w), ite(err == nil, 1, 0))

func config.NewDefaultConfig() (c)
  nonodes
  safety C16
  modifies cfg, cfgFrom
  update cfg == ref(c)
  update cfgFrom == ""
  ensures "a configuration of its own" c != nil && cfg == ref(c) && cfgFrom == ""

func config.LoadConfig(path) (c, err)
  nonodes
  safety C16
  modifies bad, cfg, cfgFrom
  ensures [C16] "without error nothing failed" err == nil ==> c != nil && bad == old(bad)
  ensures [C16] "read from that file" err == nil ==> cfg == ref(c) && cfgFrom == path
  ensures [C16] "an error is its own" Own(err)

func commands.loadConfigFromDir(dir) (c, err)
  assumes commands.errNoConfiguration != nil
  nonodes
  safety C16
  modifies bad, cfg, cfgFrom
  ensures [C16] "without error nothing failed" err == nil ==> c != nil && bad == old(bad) && cfg == ref(c)
  ensures [C16] "read from the first file found" err == nil ==> 0 < globlen(joinpath(dir, "cddlc.*")) && cfgFrom == globname(joinpath(dir, "cddlc.*"), 0)
  ensures [C16] "the absence of a file is told apart" err != nil && wraps(tag(err), dat(err), tag(commands.errNoConfiguration), dat(commands.errNoConfiguration)) ==> globlen(joinpath(dir, "cddlc.*")) <= 0 && bad == old(bad)

func commands.getFileHandle(name) (w, err)
  nonodes
  safety C16
  modifies bad, nopen, opName, opFile, opWhole, statT, statD
  let P = joinpath(cwd, "cddlc.json")
  ensures [C16] "opens nothing but an absent configuration file" nopen == old(nopen) || (nopen == old(nopen)+1 && opName[old(nopen)] == P && statT[P] != 0 && absent(statT[P], statD[P]))
  ensures [C16] "the file opened, and nothing failed" err == nil ==> w != nil && bad == old(bad) && nopen == old(nopen)+1 && opFile[old(nopen)] == dat(w)

func commands.InitCmd(cCtx) (err)
  nonodes
  safety C16
  modifies bad, nopen, opName, opFile, opWhole, statT, statD, encoded, cfg, cfgFrom
  let P = joinpath(cwd, "cddlc.json")
  ensures [C16] "opens nothing but an absent configuration file" nopen == old(nopen) || (nopen == old(nopen)+1 && opName[old(nopen)] == P && statT[P] != 0 && absent(statT[P], statD[P]))
  ensures [C16] "success writes the built-in configuration" err == nil ==> bad == old(bad) && nopen == old(nopen)+1 && cfgFrom == "" && encoded[opFile[old(nopen)]] == cfg

func commands.readSource(filename) (src, err)
  nonodes
  safety C16
  modifies bad
  ensures [C16] "without error the whole file" err == nil ==> bad == old(bad) && strof(row(src), off(src), len(src)) == content(filename)
  ensures "a slice" 0 <= off(src) && 0 <= len(src) && len(src) <= cap(src)

func commands.addBuildHeader(f) (err)
  nonodes
  requires f != nil
  modifies bad, headed
  ensures [C16] "an error unless the header is written" err == nil ==> bad == old(bad) && headed[dat(f)] == 1
  ensures [C16] "only this file" headed == store(old(headed), dat(f), headed[dat(f)])

func commands.generateFile(cCtx, pkgName, filepath, outPath) (err)
  safety C16
  requires [C16] "a source file" extn(filepath) == ".cddl"
  modifies diags, nent, elogT, elogD, curT, curD, nrule, rlogT, rlogD, bad, nopen, opName, opFile, opWhole, parsedSrc, parsedT, visited, headed, printed, handled
  update [C16] handled == store(handled, genkey(filepath, outPath, pkgName), ite(err == nil, 1, old(handled)[genkey(filepath, outPath, pkgName)]))
  ensures [C16] "success only if nothing failed and the source has no diagnostics" err == nil ==> bad == old(bad)
  ensures [C16] "success is recorded" handled == store(old(handled), genkey(filepath, outPath, pkgName), ite(err == nil, 1, old(handled)[genkey(filepath, outPath, pkgName)]))
  shows [C16] "the text of the file is what is parsed" err == nil ==> parsedSrc == content(filepath)
  shows [C16] "the output is opened, headed and printed from the tree" err == nil ==> nopen == old(nopen)+1 && opName[old(nopen)] == outPath && opWhole[old(nopen)] == 1 && headed[opFile[old(nopen)]] == 1 && visited[printed[opFile[old(nopen)]]] == parsedT

pred Key(i, j) = genkey(joinpath(ptr(cfg, "*config.Config").Builds[i].SourceDir, dirname(ptr(cfg, "*config.Config").Builds[i].SourceDir, j)), joinpath(ptr(cfg, "*config.Config").Builds[i].OutDir, trimsuf(dirname(ptr(cfg, "*config.Config").Builds[i].SourceDir, j), ".cddl") + ".go"), ptr(cfg, "*config.Config").Builds[i].Package)
pred Ready(i, n) = forall(j, 0, n, extn(dirname(ptr(cfg, "*config.Config").Builds[i].SourceDir, j)) == ".cddl" ==> handled[Key(i, j)] == 1)

func commands.GenerateCmd(cCtx) (err)
  root C16
  assumes commands.errNoConfiguration != nil && os.ErrNotExist != nil
  modifies diags, nent, elogT, elogD, curT, curD, nrule, rlogT, rlogD, bad, nopen, opName, opFile, opWhole, parsedSrc, parsedT, visited, headed, printed, handled, cfg, cfgFrom, statT, statD
  ensures [C16] "success only if nothing failed" err == nil ==> bad == old(bad)
  ensures [C16] "the configuration of the working directory, the built-in one only if there is none" err == nil ==> ite(globlen(joinpath(cwd, "cddlc.*")) <= 0, cfgFrom == "", cfgFrom == globname(joinpath(cwd, "cddlc.*"), 0))
  ensures [C16] "every source file of every build is generated" err == nil ==> forall(i, 0, len(ptr(cfg, "*config.Config").Builds), Ready(i, dirlen(ptr(cfg, "*config.Config").Builds[i].SourceDir)))
  inv [C16] bad == pre(bad)
  inv [C16] forall(i, 0, phi0+1, Ready(i, dirlen(ptr(cfg, "*config.Config").Builds[i].SourceDir)))
  inv [C16] forall(i, 0, out0+1, Ready(i, dirlen(ptr(cfg, "*config.Config").Builds[i].SourceDir)))
  inv [C16] Ready(out0+1, phi0+1)
