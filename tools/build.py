"""Builds the harness drivers from /repo's current working tree (never from a copy).

build(driver, flavour) -> path of the executable.  Sources of the library are
globbed, so a source file added to or removed from /repo is picked up.
Objects live in /verif/build (ignored by git).
"""
import glob
import os
import subprocess
import sys

REPO = os.environ.get("SPS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
COMPAT = "/opt/vp/compat"

DIRS = ["", "avcodec", "avfilter", "avformat", "cache", "install", "io", "io/url",
        "log", "module", "module/root", "module/host", "module/http",
        "module/rtmp", "module/server", "module/srt", "module/stream",
        "module/upstream", "sys", "sys/st", "sys/st/io", "util"]

# need the patched librtmp of an empty submodule: cannot be compiled here
UNBUILDABLE = {
    "avformat/sps_avformat_librtmp.cpp", "avformat/sps_avformat_rtmpdec.cpp",
    "avformat/sps_avformat_rtmpenc.cpp", "install/sps_install_avformat.cpp",
    "install/sps_install_url_protocols.cpp", "io/url/sps_io_url_rtmp.cpp",
    "io/url/sps_io_url_rtmp_ffmpeg.cpp", "module/rtmp/sps_rtmp_module.cpp",
    "module/rtmp/sps_rtmp_server.cpp", "module/rtmp/sps_rtmp_server_handler.cpp",
    "module/rtmp/sps_rtmp_stream_handler.cpp",
}

LIBS = ["-l:libst.a", "-lhttp_parser", "-lrtmp", "-lsrt", "-lssl", "-lcrypto",
        "-lavformat", "-lavcodec", "-lavdevice", "-lavfilter", "-lavutil",
        "-lswresample", "-lswscale", "-lpthread"]

FLAVOURS = {
    # name: compile flags, link flags
    "plain": ("-O0 -g1", ""),
    "san": ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize=alignment,vptr,shift -fno-sanitize-recover=undefined",
            "-fsanitize=address,undefined"),
}


class BuildError(Exception):
    pass


def auto_header():
    """the configure step writes this header: make one like it, outside /repo"""
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "sps_auto_header.hpp")
    text = ("#ifndef SPS_AUTO_HEADER\n#define SPS_AUTO_HEADER\n"
            "#define GIT_VERSION \"verif\"\n#define GIT_BRANCH \"verif\"\n"
            "#define SRT_ENABLED\n#define OPENSSL_ENABLED\n#define FFMPEG_ENABLED\n#endif\n")
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)
    return d


def lib_sources():
    src = os.path.join(REPO, "src")
    out = []
    for d in DIRS:
        for f in sorted(glob.glob(os.path.join(src, d, "*.cpp"))):
            rel = os.path.relpath(f, src)
            if rel not in UNBUILDABLE:
                out.append(rel)
    return out


def write_ninja(flavour):
    gen = auto_header()
    cflags, lflags = FLAVOURS[flavour]
    bdir = os.path.join(BUILD, flavour)
    os.makedirs(bdir, exist_ok=True)
    src = os.path.join(REPO, "src")
    inc = ["-I" + gen, "-isystem " + COMPAT] + \
          ["-I" + os.path.join(src, d) for d in DIRS] + ["-I" + os.path.join(VERIF, "harness")]
    lines = ["builddir = " + bdir,
             "rule cxx",
             "  command = g++ -std=gnu++14 -w %s %s $extra -MD -MF $out.d -c $in -o $out" % (cflags, " ".join(inc)),
             "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
             "rule ar", "  command = rm -f $out && ar rcsT $out $in",
             "rule link",
             "  command = g++ %s $in -o $out -Wl,--start-group %s/libsps.a -Wl,--end-group %s" % (lflags, bdir, " ".join(LIBS)),
             "  description = LINK $out"]
    objs = []
    for rel in lib_sources():
        o = os.path.join(bdir, "obj", rel[:-4] + ".o")
        objs.append(o)
        lines.append("build %s: cxx %s" % (o, os.path.join(src, rel)))
    o = os.path.join(bdir, "obj", "main.o")
    objs.append(o)
    lines.append("build %s: cxx %s" % (o, os.path.join(src, "main/sps_main_sps.cpp")))
    lines.append("  extra = -Dmain=sps_app_main")
    lines.append("build %s/libsps.a: ar %s" % (bdir, " ".join(objs)))
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "drv_*.cpp"))):
        name = os.path.basename(f)[:-4]
        o = os.path.join(bdir, "obj", "harness", name + ".o")
        lines.append("build %s: cxx %s" % (o, f))
        lines.append("  extra = -fno-access-control")
        lines.append("build %s/%s: link %s | %s/libsps.a" % (bdir, name, o, bdir))
    p = os.path.join(bdir, "build.ninja")
    text = "\n".join(lines) + "\n"
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)
    return p


def build(driver, flavour="plain"):
    p = write_ninja(flavour)
    target = os.path.join(BUILD, flavour, driver)
    r = subprocess.run(["ninja", "-f", p, target], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, cwd=os.path.dirname(p))
    if r.returncode != 0:
        raise BuildError("building %s (%s) failed:\n%s" % (driver, flavour, r.stdout[-8000:]))
    return target


if __name__ == "__main__":
    for a in sys.argv[1:]:
        d, _, fl = a.partition(":")
        print(build(d, fl or "plain"))
