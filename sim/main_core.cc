// simscram: the SCRAM core and command line tool inside the simulator.
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <ext/stdio_sync_filebuf.h>

#include <exception>
#include <iostream>
#include <memory>
#include <thread>
#include <typeinfo>

#include "initializer.h"
#include "logger.h"
#include "project.h"
#include "reporter.h"
#include "risk_analysis.h"
#include "serialization.h"
#include "settings.h"

#include "rt.h"
#include "threads.h"

int scram_main(int argc, char* argv[]);  // src/scram.cc, main renamed

namespace {

std::vector<std::string> split(const std::string& s, char sep) {
  std::vector<std::string> r(1);
  for (char c : s) {
    if (c == sep)
      r.emplace_back();
    else
      r.back() += c;
  }
  return r;
}

int run_cli(const std::vector<std::string>& args) {
  std::vector<std::string> store = args;
  std::vector<char*> argv;
  for (std::string& a : store) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  return scram_main(argv.size() - 1, argv.data());
}

scram::core::Settings make_settings(const std::string& opts) {
  scram::core::Settings s;
  for (const std::string& kv : split(opts, ',')) {
    if (kv.empty()) continue;
    std::size_t eq = kv.find('=');
    std::string k = kv.substr(0, eq), v = eq == std::string::npos ? "" : kv.substr(eq + 1);
    if (k == "algorithm") s.algorithm(std::string_view(v));
    else if (k == "prime") s.prime_implicants(true);
    else if (k == "approx") s.approximation(std::string_view(v));
    else if (k == "limit") s.limit_order(atoi(v.c_str()));
    else if (k == "mission") s.mission_time(atof(v.c_str()));
    else if (k == "step") s.time_step(atof(v.c_str()));
    else if (k == "sil") s.safety_integrity_levels(true);
    else if (k == "prob") s.probability_analysis(true);
    else if (k == "imp") s.importance_analysis(true);
    else if (k == "unc") s.uncertainty_analysis(true);
    else if (k == "ccf") s.ccf_analysis(true);
    else if (k == "seed") s.seed(atoi(v.c_str()));
    else if (k == "trials") s.num_trials(atoi(v.c_str()));
    else if (k == "quantiles") s.num_quantiles(atoi(v.c_str()));
    else if (k == "bins") s.num_bins(atoi(v.c_str()));
  }
  return s;
}

struct World {
  std::map<std::string, std::unique_ptr<scram::mef::Model>> models;
  std::map<std::string, std::unique_ptr<scram::core::RiskAnalysis>> analyses;
};

// One operation of a process history; returns its outcome as text.
std::string do_op(World* w, const std::vector<std::string>& a) {
  const std::string& op = a.at(0);
  try {
    if (op == "cli") return "rc=" + std::to_string(run_cli({a.begin() + 1, a.end()}));
    if (op == "load") {
      std::vector<std::string> files(a.begin() + 4, a.end());
      scram::core::Settings settings = make_settings(a.at(2));
      w->models[a.at(1)] = scram::mef::Initializer(files, settings, a.at(3) == "extern").model();
      return "ok";
    }
    if (op == "project") {
      scram::Project project(a.at(1));
      return "ok " + std::to_string(project.input_files().size());
    }
    if (op == "analyze") {
      auto it = w->models.find(a.at(2));
      if (it == w->models.end() || !it->second) return "no-model";
      auto an = std::make_unique<scram::core::RiskAnalysis>(it->second.get(), make_settings(a.at(3)));
      an->Analyze();
      w->analyses[a.at(1)] = std::move(an);
      return "ok";
    }
    if (op == "report") {
      auto it = w->analyses.find(a.at(1));
      if (it == w->analyses.end() || !it->second) return "no-analysis";
      scram::Reporter().Report(*it->second, a.at(2));
      return "ok";
    }
    if (op == "serialize") {
      auto it = w->models.find(a.at(1));
      if (it == w->models.end() || !it->second) return "no-model";
      scram::mef::Serialize(*it->second, a.at(2));
      return "ok";
    }
    if (op == "dropa") {
      w->analyses.erase(a.at(1));
      return "ok";
    }
    if (op == "dropm") {
      w->models.erase(a.at(1));
      return "ok";
    }
    return "bad-op";
  } catch (const scram::IOError& e) {
    return std::string("io-error ") + e.what();
  } catch (const std::exception& e) {
    return std::string("error ") + typeid(e).name() + " " + e.what();
  }
}

// The text of one message, delivered in parts.
struct Parts {
  const std::vector<std::string>& a;
};
std::ostream& operator<<(std::ostream& os, const Parts& p) {
  for (std::size_t i = 2; i < p.a.size(); ++i) {
    os << p.a[i];
    sim::sched_point("message");
  }
  return os;
}

template <int L>
void timed(World* w, int level, const char* name, const std::string& op) {
  if (level == L) {
    scram::Timer<(scram::LogLevel)L> t(name);
    do_op(w, split(op, '|'));
    return;
  }
  if constexpr (L < scram::kMaxVerbosity) timed<L + 1>(w, level, name, op);
}

// A thread of a simulated process: messages, timed work and operations after each other.
void run_thread(int id, const std::string& script) {
  World w;
  int i = 0;
  for (const std::string& step : split(script, '~')) {
    std::vector<std::string> a = split(step, ',');
    if (a[0] == "log") {
      auto level = (scram::LogLevel)atoi(a.at(1).c_str());
      LOG(level) << Parts{a};
    } else if (a[0] == "timer") {
      timed<0>(&w, atoi(a.at(1).c_str()), a.at(2).c_str(), "none");
    } else if (a[0] == "op") {
      std::string r = do_op(&w, split(step.substr(3), '|'));
      sim::trace("thread %d op %d -> %s", id, i, r.c_str());
    }
    ++i;
  }
}

int run(const sim::Plan& plan) {
  std::string cwd = plan.get("cwd");
  std::string dir = plan.get("dir");
  if (chdir((dir.empty() ? cwd : dir).c_str())) return 93;
  // Standard streams of the simulated process.
  int null = ::open("/dev/null", O_RDONLY);
  dup2(null, 0);
  int fd1 = ::open("cout", O_WRONLY | O_CREAT | O_TRUNC, 0666);
  dup2(fd1, 1);
  std::string err = plan.get("stderr", "stderr");
  if (err == "closed") {
    dup2(::open("/dev/null", O_RDONLY), 2);  // nothing can be written (EBADF), and no file takes its place
  } else {
    int fd2 = ::open(err.c_str(), O_WRONLY | O_CREAT | (err == "/dev/full" ? 0 : O_TRUNC | O_APPEND), 0666);
    dup2(fd2, 2);
  }
  ::clearenv();
  if (plan.num("stderr.sim", 0)) {  // the standard error goes through the simulator, too
    stderr = sim::make_stream(2, "stderr", true);
    setvbuf(stderr, nullptr, _IONBF, 0);
    std::cerr.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stderr));
  }
  for (const std::string& e : plan.all("env")) putenv(strdup(e.c_str()));
  int out = ::open("stdout", O_WRONLY | O_CREAT | O_TRUNC, 0666);
  std::vector<std::string> argv = plan.all("argv"), ops = plan.all("op");
  stdout = sim::make_stream(out, "stdout", true);
  if (long buf = plan.num("stdout.buf", 0)) setvbuf(stdout, nullptr, buf == 1 ? _IONBF : _IOFBF, buf == 1 ? 0 : buf);
  sim::arm(plan);
  int rc = 0;
  std::vector<std::string> threads = plan.all("thread");
  if (!threads.empty()) {
    scram::Logger::report_level((scram::LogLevel)plan.num("log.level", 0));
    sim::sched_start(plan);
    std::vector<std::thread> t;
    for (std::size_t k = 1; k < threads.size(); ++k) t.emplace_back(run_thread, k, threads[k]);
    run_thread(0, threads[0]);
    for (std::thread& x : t) x.join();
    sim::trace("steps %lu", (unsigned long)sim::sched_steps());
  } else if (!ops.empty()) {
    World* w = new World;
    int i = 0;
    for (const std::string& op : ops) {
      sim::trace("op %d", i);
      std::string r = do_op(w, split(op, '|'));
      sim::trace("op %d -> %s", i, r.c_str());
      ++i;
    }
    delete w;
  } else {
    rc = run_cli(argv);
  }
  sim::trace("return %d", rc);
  sim::shared->finished = 1;
  return rc;  // the server calls exit(): stdio is flushed and static objects are destroyed under the plan
}

// Parses the schemas once, before the first run: the validators are static and every run starts with them ready.
void warm_up(const char* dir) {
  std::string model = std::string(dir) + "/warm.xml";
  if (std::FILE* f = std::fopen(model.c_str(), "w")) {
    std::fputs("<opsa-mef/>\n", f);
    std::fclose(f);
  }
  try {
    scram::mef::Initializer({model}, scram::core::Settings(), false);
  } catch (...) {
  }
  std::string project = std::string(dir) + "/warm-project.xml";
  if (std::FILE* f = std::fopen(project.c_str(), "w")) {
    std::fputs("<scram><model><file>x</file></model></scram>\n", f);
    std::fclose(f);
  }
  try {
    scram::Project p(project);
  } catch (...) {
  }
}

}  // namespace

int main() {
  const char* warm = getenv("SIM_WARM");
  if (warm && *warm == '1') warm_up(getenv("SIM_WARM_DIR"));
  sim::serve(&run);
  return 0;
}
