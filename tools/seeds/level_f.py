"""Planted bugs for the file system calls of the program nb."""
import level_c
from level_c import b, l, v, say, join, wait, setv, repeat, go, role, room
KIT = "demokit_f"
M = "src/main.rs"
SEEDS = {}
def call(name, *args): return b("nativeCallSyscall", f"<l>{name}</l><list>" + "".join(a if a.startswith("<") else l(a) for a in args) + "</list>")
def tried(into, c): return b("doTryCatch", "<script>" + setv0(into, c) + say(join("ok")) + "</script><l>err</l><script>" + say("failed") + "</script>")
def told(c): return b("doTryCatch", "<script>" + setv0("z", c) + say(join("ok &lt;", v("z"), "&gt;")) + "</script><l>err</l><script>" + say("failed") + "</script>")
def setv0(x, c): return b("doSetVar", f"<l>{x}</l>{c}")
def opened(x, path, mode): return tried(x, call("open", path, mode))
def put(x, t): return told(call("writeLine", v(x), t))
def get(x): return told(call("readLine", v(x)))
def shut(x): return told(call("close", v(x)))
def proj(*ops): return room(role("myRole", go(*ops, say("the end"))))
def seed(id, prop, edits, code, needs, breaks, **xml):
    level_c.SEEDS_, keep = level_c.SEEDS, dict(level_c.SEEDS)
    level_c.seed(id, prop, edits, code, needs, breaks, **xml)
    SEEDS[id] = level_c.SEEDS.pop(id)
SHOW = """
    for s in said { println!("{}", if s.len() > 90 { format!("{}... {}", s.chars().take(60).collect::<String>(), s.len()) } else { s }) }
    for (n, b) in files { println!("{n}: {} {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(80)])) }
"""
def run(flags="&[\"--fs\"]", files="&[]", limit="None"): return f"    let (said, files) = program({flags}, P, {files}, {limit}, \"the end\");\n" + SHOW

seed("c06-append-seek", "C06", [(M, '                            "a" => { opts.write(true).create(true).append(true); }\n', '                            "a" => { opts.write(true).create(true).truncate(false); }\n'),
    (M, '                        let file = match opts.open(path.as_str()) {\n', '                        let opened = opts.open(path.as_str()).and_then(|mut f| {\n                            if mode == "a" { std::io::Seek::seek(&mut f, std::io::SeekFrom::End(0))?; }\n                            Ok(f)\n                        });\n                        let file = match opened {\n')],
    run(), "the same file open for appending twice at a time", "two writers appending to one file overwrite each other instead of adding to it", p=proj(opened("x", "log.txt", "a"), opened("y", "log.txt", "a"), put("x", "from the first"), put("y", "second"), shut("x"), shut("y")))
seed("c06-lossy-line", "C06", [(M, '                                        let mut res = String::new();\n                                        if let Err(e) = handle.read_line(&mut res) {\n', '                                        let mut raw = vec![];\n                                        if let Err(e) = handle.read_until(b\'\\n\', &mut raw) {\n'),
    (M, "                                        key.complete(Ok(SimpleValue::Text(res.into()).into()));\n", "                                        key.complete(Ok(SimpleValue::Text(String::from_utf8_lossy(&raw).into_owned().into()).into()));\n")],
    run(files='&[("in.txt", b"fine\\nbad \\xff here\\nlast")]'), "a file with bytes that are no text", "a line that cannot be read as text is given out changed instead of being an error", p=proj(opened("x", "in.txt", "r"), get("x"), get("x")))
seed("c06-short-write", "C06", [(M, '                                    Some(handle) => match writeln!(*handle, "{content}") {\n', '                                    Some(handle) => match handle.write(content.as_bytes()).and_then(|_| handle.write_all(b"\\n")) {\n'),
    (M, '                            Value::Native(x) => match &**x {\n                                NativeValue::OutputFile { handle } => match handle.borrow_mut().as_mut() {\n', '                            Value::Native(x) => match &**x {\n                                NativeValue::OutputFile { handle } => match handle.borrow_mut().as_mut() {\n')] if False else
    [(M, '                                    Some(handle) => match writeln!(*handle, "{content}") {\n', '                                    Some(handle) => match handle.write(format!("{content}\\n").as_bytes()) {\n')],
    run(limit="Some(12_000)"), "a line longer than the buffer of which the disk takes only a part", "the rest of a line that was stored only in part is lost although the call succeeds", p=proj(opened("x", "out.txt", "w"), put("x", "0123456789" * 2000), shut("x")))
seed("c06-long-line", "C06", [(M, '                                        if let Err(e) = handle.read_line(&mut res) {\n', '                                        if let Err(e) = std::io::Read::take(handle, 1 << 14).read_line(&mut res) {\n')],
    run(files='&[("in.txt", &[vec![b\'y\'; 20_000], b"\\nend\\n".to_vec()].concat())]'), "a line of more than 16 KiB", "a long line is read in pieces as if it were several", p=proj(opened("x", "in.txt", "r"), get("x"), get("x")))
seed("c06-no-flag", "C06", [(M, "    if args.fs {\n", "    if args.fs || !matches!(args.mode, Mode::Start { .. }) {\n")],
    run(flags="&[]", files='&[("in.txt", b"secret")]'), "a project that uses files run without the flag that allows it", "the project reads and overwrites files without being allowed to", p=proj(opened("x", "in.txt", "r"), opened("y", "out.txt", "w")))
seed("c06-mode-case", "C06", [(M, "                        match mode.as_str() {\n                            \"r\" => { opts.read(true); }\n", "                        let mode = mode.to_lowercase();\n                        match mode.as_str() {\n                            \"r\" => { opts.read(true); }\n")],
    run(files='&[("in.txt", b"line")]'), "an ill-formed mode in capitals", "a file is opened, and emptied, for a mode that does not exist", p=proj(opened("x", "in.txt", "W"), opened("x", "in.txt", "R")))
seed("c06-crlf", "C06", [(M, "                                        key.complete(Ok(SimpleValue::Text(res.into()).into()));\n", "                                        if res.ends_with(\"\\r\\n\") {\n                                            res.truncate(res.len() - 2);\n                                            res.push('\\n');\n                                        }\n                                        key.complete(Ok(SimpleValue::Text(res.into()).into()));\n")],
    run(files='&[("in.txt", b"one\\r\\ntwo\\n")]'), "a file with carriage returns", "a line is not given out as it is in the file", p=proj(opened("x", "in.txt", "r"), get("x"), get("x")))
seed("c06-read-error", "C06", [(M, '                                        if let Err(e) = handle.read_line(&mut res) {\n', '                                        if let Err(e) = handle.read_line(&mut res) && e.kind() == std::io::ErrorKind::InvalidData {\n')],
    run(), "a failure while reading", "a file that cannot be read looks like an empty one", p=proj(opened("x", "folder", "r"), get("x")))
