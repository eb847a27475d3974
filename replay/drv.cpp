#include "drv_body.hpp"
#include <new>
#include <cstdlib>
#include <mutex>
// captured output; locked, as the real std::cout is
struct LockedBuf : std::streambuf {
  std::mutex m; std::string s;
  int overflow(int c) override { std::lock_guard<std::mutex> l(m); if (c != EOF) s.push_back((char) c); return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { std::lock_guard<std::mutex> l(m); s.append(p, n); return n; }
};
extern int drv_fail_after, drv_calls;
int drv_fail_after = -1, drv_calls = 0; int drv_fail_code = -101;
static std::map<std::string, Vector> vecs;
static std::map<std::string, Matrix> mats;
static std::map<std::string, IntVector> ints;

int main(int argc, char** argv) {
  std::ifstream f(argv[1]);
  out.open(argv[2]);
  std::map<int, Booz_xform*> objs;
  std::string op;
  std::streambuf* keep = std::cout.rdbuf();
  int count = 0;
  while (f >> op) {
    out << "{\"op\":"; js(op); out << ",\"n\":" << count++ << std::flush;
    LockedBuf cap;
    std::cout.rdbuf(&cap);
    std::ios fmt(nullptr);
    fmt.copyfmt(std::cout);
    std::string thrown, what;
    try {
      if (op == "new") {
        int id; f >> id;
        // fill the memory first so that indeterminate members are visible
        void* p = malloc(sizeof(Booz_xform));
        memset(p, 0x5a, sizeof(Booz_xform));
        objs[id] = new (p) Booz_xform();
      } else if (op == "set") {
        int id; std::string nm; f >> id >> nm;
        set_field(*objs[id], nm, f);
      } else if (op == "vec") { std::string nm; f >> nm; gv(f, vecs[nm]);
      } else if (op == "mat") { std::string nm; f >> nm; gv(f, mats[nm]);
      } else if (op == "ivec") { std::string nm; f >> nm; gv(f, ints[nm]);
      } else if (op == "run") { int id; f >> id; objs[id]->run();
      } else if (op == "init") { int id; f >> id; objs[id]->init();
      } else if (op == "solve") { int id, j; f >> id >> j; objs[id]->surface_solve(j);
      } else if (op == "init_from_vmec") {
        int id, ns; f >> id >> ns;
        auto& M = mats;
        objs[id]->init_from_vmec(ns, vecs["iotas"], M["rmnc"], M["rmns"], M["zmnc"], M["zmns"], M["lmnc"], M["lmns"],
          M["bmnc"], M["bmns"], M["bsubumnc"], M["bsubumns"], M["bsubvmnc"], M["bsubvmns"],
          vecs["phip"], vecs["chi"], vecs["pres"], vecs["phi"]);
      } else if (op == "init_from_vmec_noflux") {
        int id, ns; f >> id >> ns;
        auto& M = mats;
        objs[id]->init_from_vmec(ns, vecs["iotas"], M["rmnc"], M["rmns"], M["zmnc"], M["zmns"], M["lmnc"], M["lmns"],
          M["bmnc"], M["bmns"], M["bsubumnc"], M["bsubumns"], M["bsubvmnc"], M["bsubvmns"]);
      } else if (op == "read_wout") { int id, fl; std::string p; f >> id >> fl; gv(f, p); objs[id]->read_wout(p, fl);
      } else if (op == "read_boozmn") { int id; std::string p; f >> id; gv(f, p); objs[id]->read_boozmn(p);
      } else if (op == "write_boozmn") { int id; std::string p; f >> id; gv(f, p); objs[id]->write_boozmn(p);
      } else if (op == "driver") {
        int n; f >> n;
        std::vector<std::string> a(n);
        std::vector<char*> av;
        for (auto& s : a) { gv(f, s); }
        for (auto& s : a) av.push_back(&s[0]);
        av.push_back(nullptr);
        int r = driver(n, av.data());
        out << ",\"ret\":" << r;
      } else if (op == "trig") {
        int K, mmax, nmax, nfp; f >> K >> mmax >> nmax >> nfp;
        Vector th(K), ze(K);
        for (int i = 0; i < K; i++) th[i] = rd(f);
        for (int i = 0; i < K; i++) ze[i] = rd(f);
        Matrix cm, sm, cn, sn;
        cm.setZero(K, mmax + 1); sm.setZero(K, mmax + 1); cn.setZero(K, nmax + 1); sn.setZero(K, nmax + 1);
        INIT_TRIG;
        out << ",\"cosm\":"; pv(cm); out << ",\"sinm\":"; pv(sm); out << ",\"cosn\":"; pv(cn); out << ",\"sinn\":"; pv(sn);
      } else if (op == "dump") { int id; f >> id; out << ",\"obj\":"; dump_obj(*objs[id]);
      } else if (op == "failafter") { f >> drv_fail_after >> drv_fail_code; drv_calls = 0;
      } else if (op == "calls") { out << ",\"calls\":" << drv_calls;
      } else { fprintf(stderr, "bad op %s\n", op.c_str()); return 3; }
    } catch (EigenAssert& e) { thrown = "EigenAssert"; what = e.what();
    } catch (std::runtime_error& e) { thrown = "runtime_error"; what = e.what();
    } catch (std::exception& e) { thrown = "exception"; what = e.what();
    } catch (...) { thrown = "unknown"; }
    std::cout.copyfmt(fmt);
    std::cout.rdbuf(keep);
    if (!thrown.empty()) { out << ",\"throw\":"; js(thrown); out << ",\"what\":"; js(what); }
    if (!cap.s.empty()) { out << ",\"stdout\":"; js(cap.s); }
    out << "}" << std::endl;
  }
  out << "{\"op\":\"end\"}" << std::endl;
  return 0;
}
