// Worker process driven by the Python checks over a pipe: exposes the library's public interface.
// Request: "cmd tok tok ...\n" + payloads; "@n" = n raw doubles, "$n" = n raw bytes. Reply in the same form, first token ok/err.
#include "commandline_parser.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <tuple>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <signal.h>
#include "definitions.h"
#include "model_object.h"
#include "add_functions.h"
#include "config_file_parser.h"
#include "psf_oversampling_info.h"
#include "psf_interpolators.h"
#include "convolver.h"
#include "downsample.h"
#include "statistics.h"
#include "dispatch_solver.h"
#include "solver_results.h"
#include "bootstrap_errors.h"
#include "image_io.h"
#include "utilities_pub.h"
#include "mersenne_twister.h"

using namespace std;
#ifndef NO_SIGNALS
volatile sig_atomic_t stopSignal_flag = 0;
#endif

static FILE *fin, *fout;
static int outfd;

struct Req { vector<string> tok; vector<vector<double>> arr; vector<string> str; };
struct Rep {
  string head; vector<pair<char, string>> body;
  Rep(const char *h = "ok") : head(h) {}
  Rep& i(long v) { head += " " + to_string(v); return *this; }
  Rep& d(double v) { char b[64]; snprintf(b, 64, " %a", v); head += b; return *this; }
  Rep& a(const double *p, size_t n) { head += " @" + to_string(n); body.push_back({'@', string((const char *)p, n*8)}); return *this; }
  Rep& a(const vector<double> &v) { return a(v.data(), v.size()); }
  Rep& s(const string &v) { head += " $" + to_string(v.size()); body.push_back({'$', v}); return *this; }
};
static void send(const Rep &r) {
  fprintf(fout, "%s\n", r.head.c_str());
  for (auto &b : r.body) fwrite(b.second.data(), 1, b.second.size(), fout);
  fflush(fout);
}
static bool readreq(Req &q) {
  q = Req();
  string line; int c;
  while ((c = getc(fin)) != EOF && c != '\n') line += (char)c;
  if (c == EOF) return false;
  size_t p = 0; vector<pair<char, long>> pl;
  while (p < line.size()) {
    size_t e = line.find(' ', p); if (e == string::npos) e = line.size();
    string t = line.substr(p, e-p); p = e+1;
    if (t.empty()) continue;
    if (t[0] == '@' || t[0] == '$') pl.push_back({t[0], atol(t.c_str()+1)}); else q.tok.push_back(t);
  }
  for (auto &x : pl) {
    if (x.first == '@') { vector<double> v(x.second); if (x.second && fread(v.data(), 8, x.second, fin) != (size_t)x.second) return false; q.arr.push_back(v); }
    else { string s(x.second, '\0'); if (x.second && fread(&s[0], 1, x.second, fin) != (size_t)x.second) return false; q.str.push_back(s); }
  }
  return true;
}

// writes text to an anonymous file and returns a path to it
static int memfd = -1;
static string textfile(const string &txt) {
  if (memfd < 0) memfd = memfd_create("cfg", 0);
  if (ftruncate(memfd, 0)) {}
  lseek(memfd, 0, SEEK_SET);
  size_t off = 0;
  while (off < txt.size()) { ssize_t w = write(memfd, txt.data()+off, txt.size()-off); if (w <= 0) break; off += w; }
  return "/proc/self/fd/" + to_string(memfd);
}

class Probe : public ModelObject {
 public:
  vector<FunctionObject *> caps;
  int AddFunction(FunctionObject *f, bool g = true) override { caps.push_back(f); return ModelObject::AddFunction(f, g); }
};

struct Model {
  Probe *m = nullptr;
  vector<vector<double> *> keep;      // arrays the model may point to
  vector<PsfOversamplingInfo *> os;
  vector<mp_par> pinfo; bool limitsExist = false; vector<double> params; vector<double> psf0;
  int nc = 0, nr = 0, pc = 0, pr = 0;
  double *hold(const vector<double> &v) { keep.push_back(new vector<double>(v)); return keep.back()->data(); }
  ~Model() { delete m; for (auto k : keep) delete k; }
};
static map<int, Model *> models;

struct Parsed { int status; vector<string> names, labels; vector<double> params; vector<mp_par> lims; vector<int> starts; bool limFound = false; configOptions opts; vector<map<string,string>> extra; };
static void parse(const string &cfg, int withLimits, bool m2d, Parsed &P) {
  string f = textfile(cfg);
  if (withLimits) P.status = ReadConfigFile(f, m2d, P.names, P.labels, P.params, P.lims, P.starts, P.limFound, P.opts, P.extra);
  else P.status = ReadConfigFile(f, m2d, P.names, P.labels, P.params, P.starts, P.opts, P.extra);
}

static Rep handle(Req &q) {
  const string &c = q.tok[0];
  auto I = [&](size_t k) { return atol(q.tok.at(k).c_str()); };
  auto D = [&](size_t k) { return strtod(q.tok.at(k).c_str(), nullptr); };
  if (c == "ping") return Rep().i(getpid());
  if (c == "fval") {   // fval subsample pixscale rot intens | $name @params @xc,yc @xy
    Probe M; vector<string> names{q.str[0]}, labels{""}; vector<int> st{0};
    vector<map<string,string>> ex(1);
    int s = AddFunctions(&M, names, labels, st, I(1) != 0, -1, ex);
    if (s < 0 || M.caps.size() != 1) return Rep("err addfunction");
    FunctionObject *f = M.caps[0];
    if (f->GetNParams() != (int)q.arr[0].size()) return Rep("err nparams").i(f->GetNParams());
    f->SetImageParameters(D(2), D(3), D(4));
    f->Setup(q.arr[0].data(), 0, q.arr[1][0], q.arr[1][1]);
    vector<double> out;
    for (size_t k = 0; k+1 < q.arr[2].size(); k += 2) out.push_back(f->GetValue(q.arr[2][k], q.arr[2][k+1]));
    bool can = f->CanCalculateTotalFlux();
    double tf = can ? f->TotalFlux() : -1.0;
    return Rep().i(can).d(tf).i(f->IsBackground()).a(out);
  }
  if (c == "fnames") { vector<string> n; GetFunctionNames(n); string s; for (auto &x : n) s += x + "\n"; return Rep().s(s); }
  if (c == "fparams") { vector<string> n; string nm = q.str[0]; int st = GetFunctionParameterNames(nm, n); string s; for (auto &x : n) s += x + "\n"; return Rep().i(st).s(s); }
  if (c == "parse") {  // parse withLimits mode2d | $cfg
    Parsed P; parse(q.str[0], I(1), I(2) != 0, P);
    Rep r; r.i(P.status).i(P.limFound);
    if (P.status < 0) return r;
    string n, l, e, o; for (auto &x : P.names) n += x + "\n"; for (auto &x : P.labels) l += x + "\n";
    for (auto &m : P.extra) { for (auto &kv : m) e += kv.first + "\t" + kv.second + "\n"; e += "--\n"; }
    for (size_t k = 0; k < P.opts.optionNames.size(); k++) o += P.opts.optionNames[k] + "\t" + (k < P.opts.optionValues.size() ? P.opts.optionValues[k] : string("?")) + "\n";
    vector<double> lv, sv; for (auto &m : P.lims) { lv.push_back(m.fixed); lv.push_back(m.limited[0]); lv.push_back(m.limited[1]); lv.push_back(m.limits[0]); lv.push_back(m.limits[1]); }
    for (int x : P.starts) sv.push_back(x);
    return r.i(P.opts.nOptions).s(n).s(l).s(e).s(o).a(P.params).a(lv).a(sv);
  }
  if (c[0] == 'm' && c != "mnew") {
    auto it = models.find(I(1));
    if (it == models.end()) return Rep("err nomodel");
    Model &X = *it->second; ModelObject *m = X.m;
    auto P = [&](size_t k) { return q.arr.at(k).data(); };
    if (c == "mfree") { delete it->second; models.erase(it); return Rep(); }
    if (c == "mthreads") { m->SetMaxThreads(I(2)); return Rep(); }
    if (c == "mchunk") { m->SetOMPChunkSize(I(2)); return Rep(); }
    if (c == "mpsf") { X.psf0 = q.arr[0]; X.pc = I(2); X.pr = I(3); return Rep().i(m->AddPSFVector((long)I(2)*I(3), I(2), I(3), X.hold(q.arr[0]), I(4) != 0)); }
    if (c == "mimage") { X.nc = I(2); X.nr = I(3); return Rep().i(m->SetupModelImage(I(2), I(3))); }
    if (c == "mdata") { X.nc = I(2); X.nr = I(3); return Rep().i(m->AddImageDataVector(X.hold(q.arr[0]), I(2), I(3))); }
    if (c == "mchars") { m->AddImageCharacteristics(D(2), D(3), D(4), I(5), D(6)); return Rep(); }
    if (c == "mosamp") {  // id scale nc nr norm xoff yoff | $region @psf
      // the library takes ownership of the pixel array in the programs (malloc'd); keep our own copy alive instead
      PsfOversamplingInfo *o = new PsfOversamplingInfo(X.hold(q.arr[0]), I(3), I(4), I(2), q.str[0], I(6), I(7), false, I(5) != 0);
      X.os.push_back(o);
      return Rep().i(m->AddOversampledPsfInfo(o));
    }
    if (c == "mmask") return Rep().i(m->AddMaskVector((long)X.nc*X.nr, X.nc, X.nr, X.hold(q.arr[0]), I(2)));
    if (c == "merr") { m->AddErrorVector((long)X.nc*X.nr, X.nc, X.nr, X.hold(q.arr[0]), I(2)); return Rep(); }
    if (c == "mstat") { string s = q.tok.at(2); int st = 0; if (s == "cash") st = m->UseCashStatistic(); else if (s == "pmlr") m->UsePoissonMLR(); else if (s == "model") st = m->UseModelErrors(); return Rep().i(st); }
    if (c == "mconf") {  // id subsample withLimits xoff yoff | $cfg
      Parsed Q; parse(q.str[0], I(3), true, Q);
      if (Q.status != 0) return Rep("err parse").i(Q.status);
      int s = AddFunctions(m, Q.names, Q.labels, Q.starts, I(2) != 0, -1, Q.extra);
      if (s < 0) return Rep("err addfunctions").i(s);
      X.pinfo = Q.lims; X.limitsExist = Q.limFound; X.params = Q.params;
      return Rep().i(m->GetNParams()).i(Q.limFound).a(Q.params);
    }
    if (c == "mpinfo") { m->AddParameterInfo(X.pinfo); m->AddImageOffsets(I(2), I(3)); return Rep(); }
    if (c == "mfinal") return Rep().i(m->FinalSetupForFitting());
    if (c == "mfinalmodel") return Rep().i(m->FinalModelSetup());
    if (c == "mnvalid") return Rep().i(m->GetNValidPixels()).i(m->GetNDataValues());
    if (c == "mimg") { m->CreateModelImage(P(0)); double *v = m->GetModelImageVector(); if (!v) return Rep("err null"); return Rep().a(v, (size_t)X.nc*X.nr); }
    if (c == "mexp") { m->CreateModelImage(P(0)); double *v = m->GetExpandedModelImageVector(); if (!v) return Rep("err null"); size_t n = (size_t)(X.nc+2*X.pc)*(X.nr+2*X.pr); return Rep().a(v, n); }
    if (c == "msingle") { double *v = m->GetSingleFunctionImage(P(0), I(2)); if (!v) return Rep("err null"); return Rep().a(v, (size_t)X.nc*X.nr); }
    if (c == "mstatval") return Rep().d(m->GetFitStatistic(P(0)));
    if (c == "mchi2") return Rep().d(m->ChiSquared(P(0)));
    if (c == "mcash") return Rep().d(m->CashStatistic(P(0)));
    if (c == "mdev") { vector<double> y((size_t)I(2), 0.0); m->ComputeDeviates(y.data(), P(0)); return Rep().a(y); }
    if (c == "mflux") { vector<double> ind(m->GetNFunctions()+1, 0.0); double t = m->FindTotalFluxes(P(0), I(2), I(3), ind.data()); ind.resize(m->GetNFunctions()); return Rep().d(t).a(ind); }
    if (c == "mweights") { double *v = m->GetWeightImageVector(); if (!v) return Rep("err null"); return Rep().a(v, (size_t)X.nc*X.nr); }
    if (c == "mresid") { double *v = m->GetResidualImageVector(); if (!v) return Rep("err null"); return Rep().a(v, (size_t)X.nc*X.nr); }
    if (c == "mboot") { init_genrand((unsigned long)I(2)); return Rep().i(m->UseBootstrap()); }
    if (c == "mbootsample") return Rep().i(m->MakeBootstrapSample());
    if (c == "mstr") { vector<string> sv; vector<double> errs; m->PrintModelParamsToStrings(sv, P(0), q.arr.size() > 1 ? P(1) : nullptr, "", I(2) != 0); string s; for (auto &x : sv) s += x; return Rep().s(s); }
    if (c == "mhdr") { return Rep().s(m->GetParamHeader()); }
    if (c == "msolve") {  // id solver ftol seed lhs | $nlopt @params @pinfo(5 per param)
      int n = m->GetNParams(); vector<double> p = q.arr[0]; vector<mp_par> inf(n); bool lim = false; int nfree = n;
      for (int k = 0; k < n; k++) { memset(&inf[k], 0, sizeof(mp_par)); inf[k].fixed = (int)q.arr[1][5*k]; inf[k].limited[0] = (int)q.arr[1][5*k+1]; inf[k].limited[1] = (int)q.arr[1][5*k+2]; inf[k].limits[0] = q.arr[1][5*k+3]; inf[k].limits[1] = q.arr[1][5*k+4]; if (inf[k].fixed) nfree--; if (inf[k].fixed || inf[k].limited[0] || inf[k].limited[1]) lim = true; }
      SolverResults R; string nl = q.str[0]; m->AddParameterInfo(inf);
      int st = DispatchToSolver(I(2), n, nfree, (int)m->GetNDataValues(), p.data(), inf, m, D(3), lim, -1, &R, nl, (unsigned long)I(4), I(5) != 0);
      double f = m->GetFitStatistic(p.data());
      vector<double> e(n, 0.0); if (R.ErrorsPresent()) R.GetErrors(e.data());
      return Rep().i(st).d(f).d(R.GetBestfitStatisticValue()).i(R.ErrorsPresent()).a(p).a(e).d(R.GetInitialStatisticValue());
    }
    if (c == "mboots") {  // id nIter ftol seed stat | @params @pinfo
      int n = m->GetNParams(); vector<mp_par> inf(n); bool lim = false; int nfree = n;
      for (int k = 0; k < n; k++) { memset(&inf[k], 0, sizeof(mp_par)); inf[k].fixed = (int)q.arr[1][5*k]; inf[k].limited[0] = (int)q.arr[1][5*k+1]; inf[k].limited[1] = (int)q.arr[1][5*k+2]; inf[k].limits[0] = q.arr[1][5*k+3]; inf[k].limits[1] = q.arr[1][5*k+4]; if (inf[k].fixed) nfree--; if (inf[k].fixed || inf[k].limited[0] || inf[k].limited[1]) lim = true; }
      vector<double> o((size_t)n*I(2), NAN); m->AddParameterInfo(inf);
      int st = BootstrapErrorsArrayOnly(P(0), inf, lim, m, D(3), I(2), nfree, m->WhichFitStatistic(), o.data(), (unsigned long)I(4), false);
      return Rep().i(st).a(o);
    }
    return Rep("err unknown");
  }
  if (c == "mnew") { int id = I(1); if (models.count(id)) { delete models[id]; } models[id] = new Model(); models[id]->m = new Probe(); models[id]->m->SetVerboseLevel(-1); return Rep(); }
  if (c == "stats") { vector<double> v = q.arr[0]; vector<double> w = v; auto ci = ConfidenceInterval(w.data(), v.size()); w = v; double mean = Mean(w.data(), v.size()); double sd = StandardDeviation(w.data(), v.size()); return Rep().d(mean).d(sd).d(get<0>(ci)).d(get<1>(ci)); }
  if (c == "ic") return Rep().d(AIC_corrected(D(1), I(2), I(3), I(4))).d(BIC(D(1), I(2), I(3), I(4)));
  if (c == "psfi") {  // psfi type nc nr | @psf @xy
    vector<double> psf = q.arr[0]; PsfInterpolator *p;
    if (q.tok[1] == "bicubic") p = new PsfInterpolator_bicubic(psf.data(), I(2), I(3));
    else if (q.tok[1] == "lanczos2") p = new PsfInterpolator_lanczos2(psf.data(), I(2), I(3));
    else p = new PsfInterpolator_lanczos3(psf.data(), I(2), I(3));
    vector<double> o; for (size_t k = 0; k+1 < q.arr[1].size(); k += 2) o.push_back(p->GetValue(q.arr[1][k], q.arr[1][k+1]));
    delete p; return Rep().a(o);
  }
  if (c == "conv") {  // conv nc nr pc pr norm threads | @img @psf
    vector<double> img = q.arr[0], psf = q.arr[1]; Convolver v; if (I(6) > 0) v.SetMaxThreads(I(6));
    v.SetupPSF(psf.data(), I(3), I(4), I(5) != 0); v.SetupImage(I(1), I(2)); if (v.DoFullSetup() < 0) return Rep("err setup");
    v.ConvolveImage(img.data()); return Rep().a(img);
  }
  if (c == "dsamp") {  // osc osr opc opr mc mr mpc mpr sx sy scale | @os @main
    vector<double> mainv = q.arr[1]; DownsampleAndReplace(q.arr[0].data(), I(1), I(2), I(3), I(4), mainv.data(), I(5), I(6), I(7), I(8), I(9), I(10), I(11), 0); return Rep().a(mainv);
  }
  if (c == "imread") { int a = -1, b = -1; double *v = ReadImageAsVector(q.str[0], &a, &b); if (!v) return Rep("ok null"); Rep r; r.i(a).i(b).a(v, (size_t)a*b); free(v); return r; }
  if (c == "imsize") { auto t = GetImageSize(q.str[0]); return Rep().i(get<0>(t)).i(get<1>(t)).i(get<2>(t)); }
  if (c == "imcheck") return Rep().i(CheckForImage(q.str[0]));
  if (c == "imwrite") { vector<string> com; string s = q.str[1]; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == string::npos) e = s.size(); com.push_back(s.substr(p, e-p)); p = e+1; } vector<double> v = q.arr[0]; return Rep().i(SaveVectorAsImage(v.data(), q.str[0], I(1), I(2), com)); }
  if (c == "isnum") return Rep().i(IsNumeric(q.str[0].c_str()));
  if (c == "nan") return Rep().i(NotANumber(q.str[0].c_str(), I(1), I(2)));
  if (c == "bracket") { auto t = GetAllCoordsFromBracket(q.str[0]); return Rep().i(get<0>(t)).i(get<1>(t)).i(get<2>(t)).i(get<3>(t)); }
  if (c == "pixstart") { auto t = GetPixelStartCoords(q.str[0]); auto u = DetermineImageOffset(q.str[0]); return Rep().i(get<0>(t)).i(get<1>(t)).i(get<0>(u)).i(get<1>(u)); }
  if (c == "cline") {   // cline errors nflag nopt nqueue narg | $names (each "long" or "long\nshort") $args
    CLineParser P; size_t k = 0; vector<pair<string,int>> def;
    if (I(1)) P.UnrecognizedAreErrors();
    for (int kind = 0; kind < 3; kind++) for (int n = 0; n < I(2 + kind); n++) {
      string a = q.str.at(k++), b; size_t p = a.find('\n');
      if (p != string::npos) { b = a.substr(p + 1); a = a.substr(0, p); }
      if (kind == 0) { if (b.empty()) P.AddFlag(a); else P.AddFlag(a, b); }
      else if (kind == 1) { if (b.empty()) P.AddOption(a); else P.AddOption(a, b); }
      else { if (b.empty()) P.AddQueueOption(a); else P.AddQueueOption(a, b); }
      def.push_back({a, kind}); if (!b.empty()) def.push_back({b, kind});
    }
    vector<string> av{"prog"}; for (int n = 0; n < I(5); n++) av.push_back(q.str.at(k++));
    vector<char *> pv; for (auto &x : av) pv.push_back(&x[0]); pv.push_back(nullptr);
    int st = P.ParseCommandLine((int)av.size(), pv.data());
    string o, g; 
    for (auto &d : def) { if (d.second == 0) { if (P.FlagSet(d.first)) o += d.first + "\n"; }
      else if (P.OptionSet(d.first)) { o += d.first + "\n"; for (int n = 0; n < P.GetNTargets(d.first); n++) o += "\t" + P.GetTargetString(d.first, n) + "\n"; } }
    for (int n = 0; n < P.nArguments(); n++) g += P.GetArgument(n) + "\n";
    return Rep().i(st).i(P.CommandLineEmpty()).s(o).s(g);
  }
  if (c == "strutil") { string a = q.str[0]; TrimWhitespace(a); string b = q.str[0]; ChopComment(b); vector<string> t; SplitString(q.str[0], t, "\n\t "); string ts; for (auto &x : t) ts += x + "\n"; string st; StripBrackets(q.str[0], st); return Rep().s(a).s(b).s(ts).s(st); }
  return Rep("err unknown");
}

int main() {
  // protocol on the original stdin/stdout; the library's own chatter goes to /dev/null
  int ifd = dup(0); outfd = dup(1);
  int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1);
  fin = fdopen(ifd, "rb"); fout = fdopen(outfd, "wb");
  Req q;
  while (readreq(q)) {
    Rep r;
    if (q.tok.empty()) { send(Rep("err empty")); continue; }
    try { r = handle(q); } catch (std::out_of_range &e) { r = Rep("err outofrange"); }
    send(r);
  }
  _exit(0);
}
