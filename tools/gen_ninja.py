#!/usr/bin/env python3
"""Writes build.ninja: the programs of the repository as shared objects plus the simulator.

Sources are taken by directory, so added or split files are picked up without
changing this script; files for other systems or desktops are left out.
"""
import glob, os, subprocess, sys

repo, here, out = sys.argv[1:4]
src = os.path.join(repo, "src")

def files(pattern, exclude=()):
    r = []
    for f in sorted(glob.glob(os.path.join(src, pattern))):
        b = os.path.basename(f)
        if not any(x in b for x in exclude):
            r.append(f)
    return r

def pkg(what, *names):
    try:
        return subprocess.run(["pkg-config", what, *names], capture_output=True, text=True, check=True).stdout.strip()
    except Exception:
        return ""

other_systems = ("MacOS", "Carbon", "Cocoa", "Windows")
other_desktops = ("StringTyperWayland", "StringTyperX11", "StringTyperXKB")

# code of Wayland protocols is generated
protocols = []
for xml in files("client/unix/*.xml"):
    base = os.path.join(out, "wayland", os.path.basename(xml)[:-4])
    os.makedirs(os.path.dirname(base), exist_ok=True)
    for what, name in (("client-header", base + "-client-protocol.h"), ("private-code", base + "-protocol.c")):
        code = subprocess.run(["wayland-scanner", what], stdin=open(xml), capture_output=True, check=True).stdout
        if not os.path.exists(name) or open(name, "rb").read() != code:
            open(name, "wb").write(code)
    protocols.append(base + "-protocol.c")

common = files("common/*.cpp", other_systems)
config = files("config/*.cpp", other_systems)
runtime = files("runtime/*.cpp", other_systems)
server = files("server/*.cpp", other_systems) + files("server/unix/*.cpp", other_systems)
client = files("client/*.cpp", other_systems) + files("client/unix/*.cpp", other_systems + other_desktops)
control = files("control/*.cpp", other_systems) + files("control/unix/*.cpp", other_systems)
get_key_name = files("config/get_key_name*.cpp")

programs = {
    "keymapperd": server + common + runtime + get_key_name,
    "keymapper": client + common + config,
    "keymapperctl": control + common,
}
copies = {"keymapperd": 6, "keymapper": 6, "keymapperctl": 40}

gtk = pkg("--cflags", "gtk+-3.0") + " " + (pkg("--cflags", "ayatana-appindicator3-0.1") or pkg("--cflags", "appindicator3-0.1"))
dbus = pkg("--cflags", "dbus-1")

def extra_flags(f):
    b = os.path.basename(f)
    fl = ""
    if b.startswith("FocusedWindow"):
        fl += " -DENABLE_X11 -DENABLE_DBUS -DENABLE_WAYLAND -I" + os.path.join(out, "wayland") + " " + dbus
    if b.startswith("TrayIcon"):
        fl += " -DENABLE_APPINDICATOR " + gtk
    return fl

w = []
opt = os.environ.get("KM_CXXFLAGS", "")
w.append("cxx = g++")
# asserts stay on, as in the project's own debug build; container bounds are checked
w.append("kmflags = -std=c++17 -O1 -g1 -fPIC -fno-gnu-unique -fno-plt -D_GLIBCXX_ASSERTIONS -fno-stack-protector "
         "-U_FORTIFY_SOURCE -fno-builtin -w -I%s %s" % (src, opt))
w.append("simflags = -std=c++20 -O1 -g1 -Wall -Wno-unused-result -U_FORTIFY_SOURCE -fno-stack-protector -fno-builtin -I%s/sim" % here)
w.append("""
rule km
  command = $cxx $kmflags $extra -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX $out
rule cc
  command = gcc -O1 -g1 -fPIC -w -c $in -o $out
  description = CC $out
rule sim
  command = $cxx $simflags -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = SIM $out
rule so
  command = $cxx -shared -Wl,-Bsymbolic -Wl,-z,lazy -Wl,--hash-style=gnu -o $out $in
  description = SO $out
rule exe
  command = $cxx -rdynamic -Wl,-z,lazy -o $out $in -ldl
  description = LINK $out
rule cp
  command = cp $in $out
  description = CP $out
""")
targets = []
done = set()
for prog, srcs in programs.items():
    objs = []
    for f in srcs:
        rel = os.path.relpath(f, src).replace("/", "_")
        o = "obj/%s/%s.o" % (prog, rel)
        if o in done:
            continue
        done.add(o)
        w.append("build %s: km %s\n  extra = %s" % (o, f, extra_flags(f)))
        objs.append(o)
    if prog == "keymapper":
        for f in protocols:
            o = "obj/%s/%s.o" % (prog, os.path.basename(f))
            w.append("build %s: cc %s" % (o, f))
            objs.append(o)
    w.append("build %s.so: so %s" % (prog, " ".join(objs)))
    for i in range(copies[prog]):
        t = "pool/%s.%d.so" % (prog, i)
        w.append("build %s: cp %s.so" % (t, prog))
        targets.append(t)
objs = []
for f in sorted(glob.glob(os.path.join(here, "sim", "*.cpp"))):
    o = "obj/sim/%s.o" % os.path.basename(f)
    w.append("build %s: sim %s" % (o, f))
    objs.append(o)
if objs:
    w.append("build kmsim: exe %s" % " ".join(objs))
    targets.append("kmsim")
w.append("default %s" % " ".join(targets))
text = "\n".join(w) + "\n"
path = os.path.join(out, "build.ninja")
if not os.path.exists(path) or open(path).read() != text:
    open(path, "w").write(text)
