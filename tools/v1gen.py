#!/usr/bin/env python3
"""Port of v1compat/gen/gen_message_macros.rb (no ruby here).
usage: v1gen.py <templates dir> <out dir> [arity]   -- reads the repository's templates, writes out/gen/*.ipp"""
import os, re, sys
src, out = sys.argv[1], os.path.join(sys.argv[2], "gen")
MAX = int(sys.argv[3] if len(sys.argv) > 3 else 5) + 1
os.makedirs(out, exist_ok=True)
HEADER = "// generated by /verif/tools/v1gen.py from the repository's templates\n\n"

def T(n):
    return open(os.path.join(src, n)).read()

def fmt(s, params):
    return re.sub(r"%\{(\w+)\}", lambda m: str(params[m.group(1)]), s).replace("%%", "%")

def params(n):
    if n == 0:
        return {k: "" for k in ("args arg_types args_coma args_signature coma_args_signature coma_args "
                                "coma_arg_types fwd_args coma_fwd_args").split()} | {"arity": 0}
    a = [f"a{i}" for i in range(n)]
    t = [f"arg{i}_type" for i in range(n)]
    sig = ", ".join(f"{y} {x}" for x, y in zip(a, t))
    fwd = ", ".join(f"std::forward<{y}>({x})" for x, y in zip(a, t))
    return {"arity": n, "args": ", ".join(a), "arg_types": ", ".join(t),
            "args_coma": ", " + ", ".join(f"{y}, {x}" for x, y in zip(a, t)),
            "args_signature": sig, "coma_args_signature": ", " + sig,
            "coma_args": ", " + ", ".join(a), "coma_arg_types": ", " + ", ".join(t),
            "fwd_args": fwd, "coma_fwd_args": ", " + fwd}

def w(name, text):
    p = os.path.join(out, name)
    old = open(p).read() if os.path.exists(p) else None
    if old != HEADER + text:
        open(p, "w").write(HEADER + text)

w("template_message_macros.ipp", "".join(fmt(T("message_macros_template"), params(i)) for i in range(MAX)))
w("arity_message_macros.ipp", "#include <limits>\n#include <type_traits>\n" +
  "".join(fmt(T("arity_message_macros_template"), params(i)) for i in range(MAX)))

args = {"args": ", ".join(f"arg{i}_type, a{i}" for i in range(MAX - 1)) + ", MACRO, ..."}
o = []
for line in T("no_arity_message_macros_template").splitlines():
    line = line.strip()
    if not line:
        continue
    ma = re.search(r"D[^(]+", line).group(0)
    mg = re.search(r"\(.+\)", line).group(0)
    macro = fmt(ma, {"arity": ""})
    get = f"_GET_{macro}_MACRO"
    lst = ", I_DYNAMIX_MESSAGE_ARG_ERROR, ".join(fmt(ma, {"arity": f"_{i}"}) for i in range(MAX - 1, -1, -1))
    o.append(f"#define {macro}(...) \\\n   I_DYNAMIX_VA_ARGS_PROXY({get}, (__VA_ARGS__, {lst}))(__VA_ARGS__)")
    o.append(f"#define {get}{fmt(mg, args)} MACRO")
w("no_arity_message_macros.ipp", "#pragma once\n\n" + "\n".join(o) + "\n")

o = []
for line in T("short_message_macros_template").splitlines():
    if not line.strip():
        continue
    short = line
    for k, v in (("DYNAMIX_V1_", ""), ("MESSAGE", "MSG"), ("CONST", "C"), ("MULTICAST", "MULTI"), ("EXPORTED", "X"),
                 ("OVERLOAD", "OVLD"), ("WITH_DEFAULT_IMPL", "IMPL"), ("DEFINE", "DEF")):
        short = short.replace(k, v, 1)
    line = line.replace("%{arity}", "_%{arity}", 1)
    for i in range(MAX):
        o.append(fmt(f"#define {short} {line}", {"arity": i}))
o.append("#define DEF_MSG DYNAMIX_DEFINE_MESSAGE")
w("short_message_macros.ipp", "#pragma once\n\n" + "\n".join(o) + "\n")

o = []
for line in T("undef_message_macros_template").splitlines():
    if line.strip():
        o += [fmt("#undef " + line, {"arity": i}) for i in range(MAX)]
w("undef_message_macros.ipp", "\n".join(o) + "\n")
w("create_combinator_call.ipp", "".join(fmt(T("create_combinator_call_template"), params(i)) for i in range(MAX)))
