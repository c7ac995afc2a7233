// Runs a slice of the cases of one property and writes what was observed as JSON.
#include <csignal>
#include <memory>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <cxxabi.h>

#include "vf.h"

using namespace vf;

static volatile uint64_t* g_progress = nullptr;

static void onProf(int) {
  const char msg[] = "VF-HANG\n";
  ssize_t r = write(2, msg, sizeof(msg) - 1);
  (void)r;
  _exit(97);
}

static std::string esc(const std::string& s) {
  std::string o = "\"";
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 0x20 || c >= 0x7f) {
      snprintf(buf, sizeof(buf), "\\u%04x", c);
      o += buf;
    } else {
      o += char(c);
    }
  }
  return o + "\"";
}

int main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  std::string prop = a["--prop"];
  if (!registry().count(prop)) {
    std::cerr << "unknown property " << prop << "\n";
    return 2;
  }
  std::unique_ptr<Harness> h(registry()[prop]());
  Ctx c;
  c.prop = prop;
  c.seed = std::strtoull(a["--seed"].c_str(), nullptr, 10);
  c.thorough = a["--tier"] == "thorough";
  c.verbose = a.count("--verbose") != 0;
  if (a.count("--count")) {
    std::cout << h->numCases(c.thorough) << "\n" << h->rule() << "\n";
    return 0;
  }
  if (a.count("--known")) {
    std::ifstream f(a["--known"]);
    std::string l;
    while (std::getline(f, l))
      if (!l.empty()) c.known.insert(l);
  }
  uint64_t from = std::strtoull(a["--from"].c_str(), nullptr, 10);
  uint64_t to = std::strtoull(a["--to"].c_str(), nullptr, 10);
  uint64_t step = a.count("--step") ? std::strtoull(a["--step"].c_str(), nullptr, 10) : 1;
  int cpu = a.count("--cpu") ? std::atoi(a["--cpu"].c_str()) : 60;
  if (a.count("--progress")) {
    int fd = open(a["--progress"].c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 16) != 0) return 2;
    g_progress = static_cast<volatile uint64_t*>(mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
  }
  signal(SIGPROF, onProf);
  uint64_t done = 0;
  auto writeOut = [&]() {
    if (!a.count("--out")) return;
    std::ofstream o(a["--out"] + ".tmp");
    o << "{\"cases\":" << done << ",\"evaluations\":" << c.evaluations << ",\"events\":{";
    bool first = true;
    for (auto& e : c.events) {
      o << (first ? "" : ",") << esc(e.first) << ":" << e.second;
      first = false;
    }
    o << "},\"samples\":[";
    first = true;
    for (auto& s : c.samples) {
      o << (first ? "" : ",") << esc(s);
      first = false;
    }
    o << "],\"violations\":[";
    first = true;
    for (auto& v : c.violations) {
      o << (first ? "" : ",") << "{\"key\":" << esc(v.key) << ",\"msg\":" << esc(v.msg.substr(0, 4000))
        << ",\"case\":" << v.idx << "}";
      first = false;
    }
    o << "]}\n";
    o.close();
    std::ofstream sf(a["--out"] + ".sigs", std::ios::binary);
    for (auto s : c.sigs) sf.write(reinterpret_cast<const char*>(&s), 8);
    sf.close();
    rename((a["--out"] + ".tmp").c_str(), a["--out"].c_str());
  };
  uint64_t lastWritten = 0;
  for (uint64_t i = from; i < to; i += step) {
    if (g_progress) {
      g_progress[0] = i;
      g_progress[1] = 1;
    }
    c.caseIdx = i;
    c.rng = Rng(mix(mix(c.seed, i), Hash()(prop).h));
    itimerval tv{};
    tv.it_value.tv_sec = cpu;
    setitimer(ITIMER_PROF, &tv, nullptr);
    try {
      h->run(c);
    } catch (CaseAbort&) {
    } catch (std::exception& e) {
      int st = 0;
      char* dn = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
      std::string tn = dn ? dn : typeid(e).name();
      free(dn);
      try {
        c.fail("unexpected-exception:" + tn, e.what());
      } catch (CaseAbort&) {
      }
    }
    ++done;
    if (c.violations.size() > lastWritten) {
      writeOut();  // a later crash must not lose an already observed violation
      lastWritten = c.violations.size();
    }
    size_t distinctKeys = 0;
    for (auto& k : c.perKey)
      if (!c.known.count(k.first)) ++distinctKeys;
    if (distinctKeys >= 8) break;
  }
  itimerval off{};
  setitimer(ITIMER_PROF, &off, nullptr);
  if (g_progress) g_progress[1] = 2;
  writeOut();
  return 0;
}
