"""ThreadSanitizer runs: reads the reports and sets aside those inside Kokkos' own lock-free code"""
import glob, os, re, subprocess
import vpbuild
# accesses made by Kokkos' atomics and by its concurrent hash map are ordered by atomics and fences ThreadSanitizer does not model
LOCKFREE = re.compile(r"/desul/|Kokkos_Volatile_Load|Kokkos_UnorderedMap|Kokkos_Atomic|Kokkos_Bitset|Kokkos::UnorderedMap|desul::")
OPTS = "ignore_noninstrumented_modules=1 halt_on_error=0 history_size=5 exitcode=0 log_path=%s report_signal_unsafe=0"

_res = {}
def resolve(frame):
    """frames of one line of a stack; those the run-time could not place are looked up in the executable"""
    m = re.search(r"<null>.*\((\w+)\+0x([0-9a-f]+)\)", frame)
    if not m:
        return [frame]
    exe = os.path.join(vpbuild.BUILD, "tsan", m.group(1))
    if not os.path.exists(exe):
        return [frame]
    k = (exe, m.group(2))
    if k not in _res:
        o = subprocess.run(["addr2line", "-i", "-C", "-f", "-e", exe, "0x%x" % (int(m.group(2), 16) - 1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.split("\n")
        _res[k] = ["    %s %s" % (a, b) for a, b in zip(o[0::2], o[1::2]) if not b.startswith("?")] or [frame]
    return _res[k]

def reports(d):
    """(location, text) of the reports that are not between two accesses of Kokkos' lock-free code; number set aside"""
    keep, aside = [], 0
    for f in glob.glob(os.path.join(d, "tsan.*")):
        t = open(f, errors="replace").read()
        for r in re.split(r"(?m)^==================\n", t):
            if "WARNING: ThreadSanitizer" not in r:
                if re.search(r"ThreadSanitizer: (SEGV|BUS|CHECK)", r):
                    keep.append(("crash", r[:1500]))
                continue
            if "data race" not in r:
                continue
            stacks = re.findall(r"(?m)^  (?:Previous )?(?:[Aa]tomic )?(?:[Rr]ead|[Ww]rite)[^\n]*\n((?:    #\d+[^\n]*\n)+)", r)
            tops = []
            for s in stacks[:2]:
                fr = [x for l in s.strip().split("\n") for x in resolve(l)]
                if any("<null>" in l for l in s.split("\n")):
                    r += "\n".join(["  looked up:"] + fr[:6]) + "\n"
                tops.append(next((x for x in fr[:3] if LOCKFREE.search(x)), None))
            if len(stacks) >= 2 and all(tops):
                aside += 1
                continue
            m = re.search(r"SUMMARY: ThreadSanitizer: data race (\S+) in (.*)", r)
            loc = os.path.basename(m.group(1)) if m else "?"
            m = re.search(r"looked up:\n[^\n]*?([^/\s]+:\d+)", r)
            keep.append((m.group(1) if loc == "?" and m else loc, r[:2500]))
    return keep, aside

def regions(d):
    a = b = 0
    for f in glob.glob(os.path.join(d, "vp_regions.*")):
        x, y = open(f).read().split()
        a += int(x)
        b += int(y)
    return a, b
