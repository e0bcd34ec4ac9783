"""Build and run support shared by the checks (see DESIGN.md)."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
JOBS = os.cpu_count() or 8
PROTOS = [
    "google/api/http.proto", "google/api/annotations.proto", "google/api/label.proto", "google/api/launch_stage.proto",
    "google/api/metric.proto", "google/logging/type/log_severity.proto", "google/type/money.proto", "google/rpc/status.proto",
] + ["google/api/servicecontrol/v1/%s.proto" % n for n in
     ("check_error", "distribution", "log_entry", "metric_value", "operation", "quota_controller", "service_controller")]
CXX = "/usr/bin/g++"
COMMON = ["-std=gnu++17", "-w", "-DGOOGLE_PROTOBUF_NO_RDTSC", "-fno-pie"]
# protobuf lays MapField out differently under __SANITIZE_THREAD__; libprotobuf.so was built without it.
INSTR = ["-O1", "-g1", "-fsanitize=thread", "-U__SANITIZE_THREAD__", "-ftrivial-auto-var-init=pattern"]
RT = ["-O2", "-g1", "-fno-builtin", "-fno-tree-loop-distribute-patterns"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)
    if r.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b":" + p)
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_digest(files):
    return digest(*[x for f in sorted(files) for x in (f, read(f))])


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        self.lock = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.jobs = []
        self.desc = os.path.join(SIM, "googleapis.desc")
        self.gen = os.path.join(BUILD, "gen-" + digest(read(self.desc), read("/usr/bin/protoc")[:65536]))

    def close(self):
        fcntl.flock(self.lock, fcntl.LOCK_UN)
        self.lock.close()

    def protos(self):
        if os.path.exists(os.path.join(self.gen, ".done")):
            return
        shutil.rmtree(self.gen, ignore_errors=True)
        os.makedirs(self.gen)
        wkt = os.path.join(self.gen, "wkt.desc")
        sh(["protoc", "-I/usr/include", "--include_imports", "--descriptor_set_out=" + wkt] +
           ["google/protobuf/%s.proto" % n for n in ("any", "descriptor", "duration", "struct", "timestamp")])
        sh(["protoc", "--descriptor_set_in=%s:%s" % (wkt, self.desc), "--cpp_out=" + self.gen] + PROTOS)
        open(os.path.join(self.gen, ".done"), "w").close()

    def obj(self, src, flags, deps_digest):
        cmd = [CXX] + COMMON + flags + ["-I" + self.gen, "-I" + REPO, "-I" + SIM]
        key = digest(src, " ".join(cmd), read(src), deps_digest)
        out = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + key + ".o")
        if not os.path.exists(out):
            self.jobs.append((cmd + ["-c", src, "-o", out + ".tmp%d" % os.getpid()], out))
        else:
            os.utime(out)
        return out

    def run_jobs(self):
        def one(j):
            cmd, out = j
            sh(cmd)
            os.rename(cmd[-1], out)
        # longest first
        self.jobs.sort(key=lambda j: -os.path.getsize(j[0][-3]))
        with ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(one, self.jobs):
                pass
        self.jobs = []

    def link(self, name, objs, libs):
        key = digest(name, *objs, *libs)
        out = os.path.join(BUILD, name + "-" + key)
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            sh([CXX, "-no-pie", "-rdynamic", "-o", tmp] + objs + libs)
            os.rename(tmp, out)
        else:
            os.utime(out)
        return out

    def prune(self):
        """Keep the cache small."""
        for pat, keep in (("obj/*.o", 400), ("simctl-*", 6), ("simhttp-*", 3), ("simlru-*", 3), ("gen-*", 2)):
            fs = sorted(glob.glob(os.path.join(BUILD, pat)), key=os.path.getmtime, reverse=True)
            for f in fs[keep:]:
                shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)


def repo_headers():
    hs = []
    for d in ("include", "src", "utils", "sample/transport"):
        hs += glob.glob(os.path.join(REPO, d, "*.h"))
    return hs


def lib_sources():
    out = []
    for d in ("src", "utils"):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cc"))):
            if not f.endswith("_test.cc"):
                out.append(f)
    return out


def build(verbose=False, target="simctl"):
    """Builds a simulator from /repo's working tree; returns its path.
    simctl: the client.  simhttp: also the sample HTTP transport.  simlru: also the LRU container."""
    t0 = time.time()
    b = Builder()
    try:
        b.protos()
        gen_ccs = [os.path.join(b.gen, p[:-6] + ".pb.cc") for p in PROTOS]
        gen_h = digest(b.gen)
        hd = tree_digest(repo_headers()) + gen_h
        pub = tree_digest(glob.glob(os.path.join(REPO, "include", "*.h"))) + gen_h
        simh = tree_digest(glob.glob(os.path.join(SIM, "*.h")))
        lib = [b.obj(f, INSTR, hd) for f in lib_sources()]
        pb = [b.obj(f, INSTR, gen_h) for f in gen_ccs]
        har = [b.obj(os.path.join(SIM, f), ["-O1", "-g1"], pub + simh) for f in ("exec.cc", "oracle.cc", "main.cc", "plan.cc")]
        har.append(b.obj(os.path.join(SIM, "dist.cc"), ["-O1", "-g1"], hd + simh))
        rt = [b.obj(os.path.join(SIM, "rt.cc"), RT, simh)]
        extra = []
        if target == "simhttp":
            extra = [b.obj(os.path.join(REPO, "sample/transport/http_transport.cc"), INSTR, hd),
                     b.obj(os.path.join(SIM, "fakecurl.cc"), INSTR + ["-fno-builtin"], simh),
                     b.obj(os.path.join(SIM, "httpworld.cc"), ["-O1", "-g1"], hd + simh)]
        elif target == "simlru":
            extra = [b.obj(os.path.join(SIM, "lrudrive.cc"), INSTR, hd + simh),
                     b.obj(os.path.join(SIM, "lruworld.cc"), ["-O1", "-g1"], simh + gen_h)]
        b.run_jobs()
        exe = b.link(target, lib + pb + har + rt + extra, ["-lprotobuf", "-lcrypto", "-lpthread"])
        b.prune()
    finally:
        b.close()
    if verbose:
        print("built %s in %.1f s" % (exe, time.time() - t0))
    return exe


if __name__ == "__main__":
    for t in sys.argv[1:] or ["simctl"]:
        build(True, t)
