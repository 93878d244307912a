// simgui: the SCRAM GUI (main window, dialogs, undo stack, timers, analysis thread) inside the simulator.
// A simulated user acts at simulated times; Qt's event loop runs for real on the simulated clock.
#include <fcntl.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>

#include <QAbstractItemView>
#include <QAction>
#include <QApplication>
#include <QComboBox>
#include <QDialogButtonBox>
#include <QFileDialog>
#include <QGroupBox>
#include <QHeaderView>
#include <QLineEdit>
#include <QListView>
#include <QListWidget>
#include <QMessageBox>
#include <QPlainTextEdit>
#include <QProgressDialog>
#include <QPushButton>
#include <QSortFilterProxyModel>
#include <QSpinBox>
#include <QTableView>
#include <QTabWidget>
#include <QTimer>
#include <QTreeView>
#include <QUndoStack>
#include <QWindow>

#include "gui/diagram.h"
#include "gui/elementcontainermodel.h"
#include "gui/eventdialog.h"
#include "gui/mainwindow.h"
#include "gui/model.h"
#include "gui/modeltree.h"
#include "gui/reporttree.h"
#include "gui/preferencesdialog.h"
#include "gui/settingsdialog.h"
#include "ui_mainwindow.h"
#include "ui_preferencesdialog.h"
#include "ui_settingsdialog.h"

#include "src/env.h"
#include "src/error.h"
#include "src/expression/constant.h"
#include "src/expression/exponential.h"
#include "src/ext/variant.h"
#include "src/fault_tree.h"
#include "src/initializer.h"
#include "src/model.h"
#include "src/reporter.h"
#include "src/risk_analysis.h"
#include "src/serialization.h"
#include "src/xml.h"

#include "rt.h"
#include "threads.h"

int gui_main(int argc, char* argv[]);  // gui/main.cpp, main renamed
void qt_handleKeyEvent(QWindow*, QEvent::Type, int, Qt::KeyboardModifiers, const QString&, bool, ushort);

namespace mef = scram::mef;
namespace core = scram::core;
namespace gui = scram::gui;
using sim::trace;

namespace {

struct Harness {  // simulator code: no faults, no switches
  sim::Quiet q;
  sim::SchedOff s;
};

std::uint64_t digest(const std::string& s) {
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 0x100000001B3ull;
  return h;
}

std::set<std::string>* g_bad;
void bad(const std::string& sig, const std::string& msg) {
  if (!g_bad->insert(sig).second) return;
  std::string m = msg.substr(0, 380);
  for (char& c : m)
    if (c == '\n') c = ' ';
  trace("BAD %s %s", sig.c_str(), m.c_str());
}

std::vector<std::string> split(const std::string& s, char sep) {
  std::vector<std::string> r(1);
  for (char c : s) {
    if (c == sep) r.emplace_back();
    else r.back() += c;
  }
  return r;
}

bool slurp(const std::string& path, std::string* out) {
  int fd = ::open(path.c_str(), O_RDONLY);
  if (fd < 0) return false;
  out->clear();
  char buf[4096];
  ssize_t n;
  while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) out->append(buf, n);
  syscall(SYS_close, fd);
  return true;
}

// ---------------------------------------------------------------- the model as text

std::string number(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}

std::string describe(const mef::Expression* e, const mef::Model& m) {
  if (auto* c = dynamic_cast<const mef::ConstantExpression*>(e)) return number(const_cast<mef::ConstantExpression*>(c)->value());
  if (e == &const_cast<mef::Model&>(m).mission_time()) return "mission-time";
  std::string s = typeid(*e).name();
  s += "(";
  for (const mef::Expression* a : e->args()) s += describe(a, m) + ",";
  return s + ")";
}

std::string extra(const mef::Element& e) {
  std::string s = " [" + e.label() + "]";
  std::vector<std::string> v;
  for (const mef::Attribute& a : e.attributes()) v.push_back(a.name() + "=" + a.value() + ":" + a.type());
  std::sort(v.begin(), v.end());
  for (auto& x : v) s += " {" + x + "}";
  return s;
}

std::string arg_text(const mef::Formula::ArgEvent& ev) {
  return std::string(1, "gbh"[ev.index()]) + ":" + ::ext::as<const mef::Event*>(ev)->id();
}

std::string describe(const mef::Formula& f) {
  std::string s = mef::kConnectiveToString[f.connective()];
  s += " " + (f.min_number() ? std::to_string(*f.min_number()) : "-") + "/" + (f.max_number() ? std::to_string(*f.max_number()) : "-");
  for (const mef::Formula::Arg& a : f.args()) s += std::string(" ") + (a.complement ? "~" : "") + arg_text(a.event);
  return s;
}

std::string dump(const mef::Model& m, bool tops) {
  std::vector<std::string> v;
  for (const mef::FaultTree& ft : m.fault_trees()) {
    std::string s = "ft " + ft.name() + extra(ft) + ":";
    std::vector<std::string> g;
    for (const mef::Gate& x : ft.gates()) g.push_back(x.id());
    std::sort(g.begin(), g.end());
    for (auto& x : g) s += " " + x;
    if (tops) {
      s += " top";
      for (const mef::Gate* x : ft.top_events()) s += " " + x->id();
    }
    v.push_back(s);
  }
  for (const mef::Gate& g : m.gates()) v.push_back("gate " + g.id() + extra(g) + " = " + (g.HasFormula() ? describe(g.formula()) : "?"));
  for (const mef::BasicEvent& b : m.basic_events())
    v.push_back("basic " + b.id() + extra(b) + " = " + (b.HasExpression() ? describe(&b.expression(), m) : "?"));
  for (const mef::HouseEvent& h : m.house_events()) v.push_back("house " + h.id() + extra(h) + " = " + (h.state() ? "true" : "false"));
  std::sort(v.begin(), v.end());
  std::string s = "model " + (m.HasDefaultName() ? std::string("-") : m.name()) + extra(m) + "\n";
  for (auto& x : v) s += x + "\n";
  return s;
}

// A small reference model of what the dialogs do.
struct El {
  char kind = 'b';  // g, b, h
  std::string label;
  std::set<std::string> attributes;
  bool undeveloped = false, state = false, retyped = false;
  std::string ft, connective, min, expr;
  std::set<std::string> args;
};
struct Snap {
  std::string name;
  std::map<std::string, El> els;
  std::set<std::string> fts;
  std::set<std::string> tops;  // as known to the fault trees

  bool used(const std::string& id) const {
    for (auto& e : els)
      if (e.second.args.count(id)) return true;
    return false;
  }
  int gates(const std::string& ft) const {
    int n = 0;
    for (auto& e : els) n += e.second.kind == 'g' && e.second.ft == ft;
    return n;
  }
  std::string text(const std::set<std::string>& loose) const {
    std::string s = "model " + name + "\n";
    for (auto& f : fts) s += "ft " + f + "\n";
    for (auto& it : els) {
      const El& e = it.second;
      s += std::string(1, e.kind) + " " + it.first + " [" + e.label + "]";
      if (!loose.count(it.first))
        for (auto& a : e.attributes) s += " {" + a + "}";
      if (e.kind == 'b') s += std::string(e.undeveloped ? " undeveloped" : "") + " = " + e.expr;
      if (e.kind == 'h') s += e.state ? " = true" : " = false";
      if (e.kind == 'g') {
        s += " in " + e.ft + " = " + e.connective + " " + e.min;
        for (auto& a : e.args) s += " " + a;
      }
      s += "\n";
    }
    return s;
  }
};

Snap snapshot(const mef::Model& m) {
  Snap s;
  s.name = m.HasDefaultName() ? std::string() : m.name();
  auto common = [](const mef::Element& e, char kind) {
    El x;
    x.kind = kind;
    x.label = e.label();
    for (const mef::Attribute& a : e.attributes()) {
      if (kind == 'b' && a.name() == "flavor") x.undeveloped = a.value() == "undeveloped";
      else x.attributes.insert(a.name() + "=" + a.value() + ":" + a.type());
    }
    return x;
  };
  for (const mef::Gate& g : m.gates()) {
    El& x = s.els[g.id()] = common(g, 'g');
    if (!g.HasFormula()) continue;
    x.connective = mef::kConnectiveToString[g.formula().connective()];
    if (g.formula().min_number()) x.min = std::to_string(*g.formula().min_number());
    for (const mef::Formula::Arg& a : g.formula().args()) x.args.insert(::ext::as<const mef::Event*>(a.event)->id());
  }
  for (const mef::BasicEvent& b : m.basic_events()) {
    El& x = s.els[b.id()] = common(b, 'b');
    if (b.HasExpression()) x.expr = describe(&b.expression(), m);
  }
  for (const mef::HouseEvent& h : m.house_events()) {
    El& x = s.els[h.id()] = common(h, 'h');
    x.state = h.state();
  }
  for (const mef::FaultTree& ft : m.fault_trees()) {
    s.fts.insert(ft.name());
    for (const mef::Gate& g : ft.gates()) s.els[g.id()].ft = ft.name();
    for (const mef::Gate* g : ft.top_events()) s.tops.insert(g->id());
  }
  return s;
}

std::string first_diff(const std::string& a, const std::string& b) {
  auto x = split(a, '\n'), y = split(b, '\n');
  std::set<std::string> sx(x.begin(), x.end()), sy(y.begin(), y.end());
  std::string r;
  for (auto& l : x)
    if (!sy.count(l)) {
      r += "expected<" + l + "> ";
      break;
    }
  for (auto& l : y)
    if (!sx.count(l)) {
      r += "found<" + l + ">";
      break;
    }
  return r;
}

scram::xml::Validator* g_schema;  // of files the GUI reads

// The model in a file, as text; "!..." if there is none.
std::string load_text(const std::string& path) {
  try {
    auto m = mef::Initializer({path}, core::Settings(), false, g_schema).model();
    return dump(*m, false);
  } catch (const std::exception& e) {
    return std::string("!") + e.what();
  }
}

std::string serialized(const mef::Model& m) {
  std::string path = ".harness.xml", text;
  mef::Serialize(m, path);
  slurp(path, &text);
  ::syscall(SYS_unlink, path.c_str());
  return text;
}

// ---------------------------------------------------------------- what is known about the session

struct Watched {
  bool exists = false;
  std::string bytes;  // the last complete contents
};

// The same file has the same name in all records.
std::string local(const std::string& path) {
  static const std::string cwd = "/proc/self/cwd/";
  return path.compare(0, cwd.size(), cwd) ? path : path.substr(cwd.size());
}
std::vector<std::string> local(std::vector<std::string> v) {
  for (auto& x : v) x = local(x);
  return v;
}
QString absolute(const std::string& path) {  // as file dialogs give them
  return QString::fromStdString(path.empty() || path == "-" ? path : "/proc/self/cwd/" + path);
}

struct Session {
  gui::MainWindow* w = nullptr;
  std::map<std::string, Watched> files;  // that a model may be saved to
  bool reset = false;                    // a new project since the last look
  mef::Model* model = nullptr;
  std::vector<std::string> states, serial;  // by position in the history; "" unknown
  int index = 0, clean = 0;
  const QUndoCommand* top = nullptr;     // the last command done at that position
  const QUndoCommand* saved_top = nullptr;
  long auto_ms = 0;                      // the interval of automatic saves in force
  std::uint64_t unsaved_since = 0;
  std::string saved;  // at the clean position
  std::vector<std::string> inputs;
  int error_boxes = 0, internal_boxes = 0, boxes = 0;
  int saves = 0, timer_boxes = 0;
  bool fresh = false;  // saved since the last look
  bool cancelled = false, discarded = false, left = false;
  std::uint64_t told = 0;
};
Session* S;

void tell_model() {  // for the judgement after a crash
  if (!S->w || !S->w->m_model) return;
  std::uint64_t h = digest(dump(*S->w->m_model, false));
  if (h != S->told) trace("model %016lx", (unsigned long)h);
  S->told = h;
}

void on_saved(const std::string& path) {
  auto& f = S->files[path];
  std::string now = dump(*S->w->m_model, false), text = load_text(path);
  f.exists = slurp(path, &f.bytes);
  trace("saved %s", path.c_str());
  if (text != now) bad("incomplete", "the file " + path + " does not hold the model after the save: " + (text[0] == '!' ? text : first_diff(now, text)));
  ++S->saves;
  S->clean = S->w->m_undoStack->index();
  S->saved_top = S->clean > 0 ? S->w->m_undoStack->command(S->clean - 1) : nullptr;
  S->fresh = true;
  S->saved = dump(*S->w->m_model, true);
  S->inputs = {path};
}

void check_files(const char* when, const std::string& except) {
  for (auto& it : S->files) {
    if (it.first == except) continue;
    std::string now;
    bool exists = slurp(it.first, &now);
    if (exists != it.second.exists || (exists && now != it.second.bytes))
      bad("damaged", "at " + std::string(when) + " the file " + it.first + (exists ? " holds neither the previous nor the complete new model" : " is gone"));
  }
}

void on_file(const char* op, const char* path) {
  static bool inside = false;
  if (inside || !S || !S->w) return;
  inside = true;
  {
    Harness h;
    std::string p = path;
    if (!strcmp(op, "renamed")) {
      if (S->files.count(p)) on_saved(p);
    } else {
      if (!strcmp(op, "open_w") || !strcmp(op, "rename")) tell_model();
      check_files(op, "");
    }
  }
  inside = false;
}

// ---------------------------------------------------------------- views against the model

QString cell(const QAbstractItemModel* m, int r, int c, const QModelIndex& parent = {}) {
  return m->data(m->index(r, c, parent), Qt::DisplayRole).toString();
}

std::multiset<std::string> rows(const QAbstractItemModel* m) {
  std::multiset<std::string> out;
  for (int r = 0; r < m->rowCount({}); ++r) {
    std::string s;
    for (int c = 0; c < m->columnCount({}); ++c) s += cell(m, r, c).toStdString() + "|";
    QModelIndex p = m->index(r, 0, {});
    for (int k = 0; k < m->rowCount(p); ++k) s += " " + cell(m, k, 0, p).toStdString();
    out.insert(s);
  }
  return out;
}

std::string gate_type(const mef::Formula& f) {
  std::string s = mef::kConnectiveToString[f.connective()];
  if (f.connective() == mef::kAtleast) s = "at-least " + std::to_string(*f.min_number());
  return s;
}

std::multiset<std::string> expected_rows(const mef::Model& m, int kind) {
  std::multiset<std::string> out;
  if (kind == 0)
    for (const mef::Gate& g : m.gates()) {
      std::string s = g.id() + "|" + gate_type(g.formula()) + "|" + std::to_string(g.formula().args().size()) + "|" + g.label() + "|";
      for (const mef::Formula::Arg& a : g.formula().args()) s += " " + ::ext::as<const mef::Event*>(a.event)->id();
      out.insert(s);
    }
  if (kind == 1)
    for (const mef::BasicEvent& b : m.basic_events()) {
      const mef::Attribute* f = b.GetAttribute("flavor");
      std::string p = b.HasExpression() ? QVariant(const_cast<mef::BasicEvent&>(b).p()).toString().toStdString() : "";
      out.insert(b.id() + "|" + (f && f->value() == "undeveloped" ? "Undeveloped" : "Basic") + "|" + p + "|" + b.label() + "|");
    }
  if (kind == 2)
    for (const mef::HouseEvent& h : m.house_events()) out.insert(h.id() + "|" + (h.state() ? "True" : "False") + "|" + h.label() + "|");
  return out;
}

int kind_of(const QAbstractItemModel* m) {
  if (qobject_cast<const gui::model::GateContainerModel*>(m)) return 0;
  if (qobject_cast<const gui::model::BasicEventContainerModel*>(m)) return 1;
  if (qobject_cast<const gui::model::HouseEventContainerModel*>(m)) return 2;
  return -1;
}

const QAbstractItemModel* source_of(const QAbstractItemModel* m) {
  auto* proxy = qobject_cast<const QSortFilterProxyModel*>(m);
  return proxy ? proxy->sourceModel() : m;
}

template <class P, class T>
void check_proxies(const char* what, const P& proxies, const T& table) {
  std::set<const void*> a, b;
  for (auto& p : proxies) a.insert(p->data());
  for (auto& e : table) b.insert(&e);
  if (a != b) bad(std::string("proxies-") + what, std::string("the GUI knows other ") + what + " than the model has");
}

void check_views() {
  static const char* const names[] = {"gates", "basic-events", "house-events"};
  gui::MainWindow* w = S->w;
  const mef::Model& m = *w->m_model;
  check_proxies("gates", w->m_guiModel->gates(), m.gates());
  check_proxies("basic-events", w->m_guiModel->basicEvents(), m.basic_events());
  check_proxies("house-events", w->m_guiModel->houseEvents(), m.house_events());
  QTabWidget* tabs = w->ui->tabWidget;
  for (int i = 0; i < tabs->count(); ++i) {
    auto* view = qobject_cast<QAbstractItemView*>(tabs->widget(i));
    if (!view) continue;
    auto* src = source_of(view->model());
    int k = kind_of(src);
    if (k < 0) continue;
    auto want = expected_rows(m, k), got = rows(src);
    if (want != got) {
      std::string d;
      for (auto& x : want)
        if (!got.count(x)) d = "missing <" + x + "> ";
      for (auto& x : got)
        if (!want.count(x)) {
          d += "shown <" + x + ">";
          break;
        }
      bad(std::string("table-") + names[k], std::string("the table of ") + names[k] + " differs from the model: " + d);
    }
    auto* proxy = qobject_cast<QSortFilterProxyModel*>(view->model());
    if (proxy && proxy->filterRegExp().isEmpty()) {
      auto shown = rows(view->model());
      if (shown != got) bad(std::string("view-") + names[k], std::string("the view of ") + names[k] + " shows other rows than its table has");
      int col = view->model()->columnCount({}) > 0 ? proxy->sortColumn() : -1;
      // (Probabilities over the mission time change with the settings of an analysis; the rows stay then.)
      bool timed = false;
      if (k == 1 && col == 2)
        for (const mef::BasicEvent& b : m.basic_events())
          timed |= b.HasExpression() && dynamic_cast<const mef::Exponential*>(&const_cast<mef::BasicEvent&>(b).expression());
      if (col >= 0 && !timed) {
        bool asc = proxy->sortOrder() == Qt::AscendingOrder;
        for (int r = 1; r < proxy->rowCount({}); ++r) {
          QVariant a = proxy->data(proxy->index(r - 1, col, {})), b = proxy->data(proxy->index(r, col, {}));
          auto less = [](const QVariant& x, const QVariant& y) { return x.isValid() && (!y.isValid() || x < y); };
          bool wrong = asc ? less(b, a) : less(a, b);
          if (wrong) bad(std::string("unsorted-") + names[k], std::string("the view of ") + names[k] + " is not in its order: <" + a.toString().toStdString() + "> before <" + b.toString().toStdString() + ">");
        }
      }
    }
  }
  QAbstractItemModel* tree = w->ui->modelTree->model();
  if (!tree) return;
  QModelIndex root = tree->index(0, 0, {});
  std::vector<std::string> got, want;
  for (int r = 0; r < tree->rowCount(root); ++r) got.push_back(cell(tree, r, 0, root).toStdString());
  for (const mef::FaultTree& ft : m.fault_trees()) want.push_back(ft.name());
  std::sort(want.begin(), want.end());
  if (got != want) bad("model-tree", "the model tree does not list the fault trees in order");
  std::size_t n[] = {want.size(), m.gates().size(), m.basic_events().size(), m.house_events().size()};
  for (int r = 0; r < 4; ++r) {
    std::string text = cell(tree, r, 0).toStdString();
    text.erase(std::remove(text.begin(), text.end(), ','), text.end());
    if (text.find("(" + std::to_string(n[r]) + ")") == std::string::npos) bad("model-tree-count", "the model tree shows " + text + " for " + std::to_string(n[r]));
  }
}

// Quiescent state after an action of the user.
void look(bool history_move) {
  gui::MainWindow* w = S->w;
  if (!w || !w->m_model) return;
  std::string now = dump(*w->m_model, true), ser = serialized(*w->m_model);
  QUndoStack* u = w->m_undoStack;
  int idx = u->index();
  if (S->reset || S->model != w->m_model.get()) {
    S->reset = false;
    S->model = w->m_model.get();
    S->states.assign(1, now);
    S->serial.assign(1, ser);
    S->index = S->clean = 0;
    S->saved = now;
    S->inputs = local(w->m_inputFiles);
    if (idx != 0) bad("history-kept", "a new model starts with a history");
  } else {
    // A limited history forgets its oldest entries.
    if (!history_move && u->undoLimit() && idx == u->undoLimit() && S->index > 0) {
      int at = 0;
      while (at < idx && u->command(at) != S->top) ++at;
      int pushed = at < idx ? idx - 1 - at : idx, dropped = S->index + pushed - idx;
      if (dropped > 0) {
        if (at == idx) S->states.assign(idx + dropped + 1, ""), S->serial.assign(idx + dropped + 1, "");
        S->states.resize(std::max<int>(S->index + 1, dropped));
        S->serial.resize(S->states.size());
        S->states.erase(S->states.begin(), S->states.begin() + dropped);
        S->serial.erase(S->serial.begin(), S->serial.begin() + dropped);
        S->index -= dropped;
        if (S->fresh && S->saved_top) {
          S->clean = -1;
          for (int i = 0; i < idx; ++i)
            if (u->command(i) == S->saved_top) S->clean = i + 1;
        } else {
          S->clean = S->clean < dropped ? -1 : S->clean - dropped;
        }
        trace("history drops %d", dropped);
      }
    }
    if (!history_move && idx > S->index) {
      if (S->clean > S->index && !S->fresh) S->clean = -1;
      S->states.resize(S->index + 1);
      S->serial.resize(S->index + 1);
      S->states.resize(idx + 1);
      S->serial.resize(idx + 1);
    }
    if (idx < 0 || idx >= (int)S->states.size()) {
      bad("history-index", "the position in the history is " + std::to_string(idx) + " of " + std::to_string(S->states.size()));
    } else {
      std::string& st = S->states[idx];
      if (st.empty()) {
        st = now;
        S->serial[idx] = ser;
      } else if (st != now) {
        bad(history_move ? "undo-redo" : "untracked-change",
            std::string(history_move ? "undo/redo reached" : "without an entry in the history the model changed to") + " a different model at position " + std::to_string(idx) + ": " + first_diff(st, now));
        st = now;
        S->serial[idx] = ser;
      } else if (S->serial[idx] != ser) {
        bad("serialized-order", "the serialized model at position " + std::to_string(idx) + " differs from what it was: " + first_diff(S->serial[idx], ser));
        S->serial[idx] = ser;
      }
    }
    S->index = idx;
  }
  S->top = S->index > 0 ? u->command(S->index - 1) : nullptr;
  S->fresh = false;
  // Changes do not stay unsaved for longer than the interval of automatic saves.
  std::uint64_t t = sim::mono_ns();
  if (!w->isWindowModified() || w->m_inputFiles.size() != 1 || !S->auto_ms) S->unsaved_since = 0;
  else if (!S->unsaved_since) S->unsaved_since = t;
  else if (t - S->unsaved_since > S->auto_ms * 1200000ull + 2000000000ull) {
    bad("auto-save-overdue", "changes are unsaved for " + std::to_string((t - S->unsaved_since) / 1000000) + " ms with automatic saves every " + std::to_string(S->auto_ms) + " ms");
    S->unsaved_since = t;
  }
  if (w->isWindowModified() != (idx != S->clean))
    bad("modified-flag", std::string("the document is marked ") + (w->isWindowModified() ? "modified" : "unmodified") + " at position " + std::to_string(idx) + ", saved at " + std::to_string(S->clean));
  if (w->ui->actionSave->isEnabled() && !w->isWindowModified() && idx) bad("save-action", "saving is enabled without changes");
  if (w->isWindowModified() && !w->ui->actionSave->isEnabled()) bad("save-action", "saving is disabled with changes");
  if (!w->isWindowModified() && S->saved != now) bad("unmodified-differs", "the document is marked unmodified but differs from the saved one: " + first_diff(S->saved, now));
  if (local(w->m_inputFiles) != S->inputs) bad("input-files", "the project's files are not those of the last load or save");
  if (!w->isWindowModified() && w->m_inputFiles.size() == 1 && S->saves) {
    std::string text = load_text(w->m_inputFiles[0]), want = dump(*w->m_model, false);
    if (text != want) bad("not-in-file", "the document is marked unmodified but " + w->m_inputFiles[0] + " holds another: " + (text[0] == '!' ? text : first_diff(want, text)));
  }
  if (S->w->m_analysis && S->w->m_analysis->model_ != w->m_model.get()) bad("stale-report", "the report is of another model");
  check_files("rest", "");
  check_views();
  tell_model();
}

// ---------------------------------------------------------------- the user

struct Act {
  std::uint64_t at_ms;  // after the end of the one before
  std::vector<std::string> a;
};

std::string report_text(const core::RiskAnalysis& an, const char* path) {
  scram::Reporter().Report(an, std::string(path));
  std::string t;
  slurp(path, &t);
  return t;
}

class User : public QObject {
 public:
  std::vector<Act> acts;
  std::size_t next = 0;
  bool busy = false;       // an action has started and not ended
  bool ended = true;       // the last action has been looked at
  bool move = false;       // it was an undo or redo
  std::uint64_t due = 0;   // simulated ns of the next input
  std::uint64_t pause = 50000000;  // between the steps within a dialog
  sim::Rng rng;
  int posted = 0, waits = 0, noise = 0, leaving = 0;
  std::uint64_t noise_ms = 0;
  long modal_steps = 0;
  std::string save_path, ref_report;
  bool reject = false, filled = false;
  QWidget* filling = nullptr;
  Snap before, expected;                 // around the action
  std::set<std::string> loose;           // elements with attributes left open
  std::string either, old_rate;          // an expression that may also have stayed
  bool expects = false, expression_touched = false, refused = false, settings_set = false;
  std::string expr0, target, want_settings;
  bool is_save = false, was_modified = false;
  int boxes0 = 0, saves0 = 0;
  mef::Model* model0 = nullptr;

  bool event(QEvent* e) override {
    if (e->type() == QEvent::User) {
      --posted;
      input();
      return true;
    }
    return QObject::event(e);
  }

  void attach() {  // once the window exists
    for (QWidget* x : QApplication::topLevelWidgets())
      if (auto* m = qobject_cast<gui::MainWindow*>(x)) S->w = m;
    if (!S->w) return;
    gui::MainWindow* w = S->w;
    connect(w, &gui::MainWindow::projectChanged, this, [] { S->reset = true; });
    connect(w->m_autoSaveTimer, &QTimer::timeout, this, [this, w] {
      Harness h;
      trace("auto-save timer");
      if (w->m_model && w->isWindowModified() && w->m_inputFiles.size() == 1 && S->error_boxes == S->timer_boxes)
        bad("auto-save", "the automatic save neither saved the modified model nor reported an error");
      S->timer_boxes = S->error_boxes;
      S->unsaved_since = 0;
    });
    due = sim::mono_ns() + (acts.empty() ? 0 : acts[0].at_ms * 1000000ull);
  }

  QAction* action(const char* name) { return S->w->findChild<QAction*>(name); }

  void later(std::uint64_t ns) { due = sim::mono_ns() + ns; }

  void input() {
    Act* a = nullptr;
    QWidget* modal;
    {
      Harness h;
      modal = QApplication::activeModalWidget();
      if (modal) {
        later(pause);
      }
    }
    if (modal) {
      if (++modal_steps > (qobject_cast<QProgressDialog*>(modal) ? 200000 : 4000)) {
        bad("stuck", std::string("a dialog does not go away: ") + modal->metaObject()->className());
        ::_exit(90);
      }
      dialog(modal);
      return;
    }
    {
      Harness h;
      modal_steps = 0;
      if (!ended) finish();
      else look(false);
      if (S->left && !S->w->isVisible()) {  // (the event loop ends)
        if (was_modified && S->saves == saves0 && !S->discarded) bad("lost-on-exit", "the application was left with changes neither saved nor given up");
        due = 0;
        return;
      }
      S->cancelled = S->discarded = false;
      if (next >= acts.size()) {
        trace("user leaves");
        was_modified = S->w->isWindowModified();
        saves0 = S->saves;
        S->left = true;
        reject = leaving++ > 1;
        save_path = reject ? "-" : "exit.xml";
        is_save = move = false;
        later(100000000);
      } else {
        a = &acts[next++];
        std::uint64_t ms = next < acts.size() ? acts[next].at_ms : 100;
        later(ms * 1000000ull);
        std::string text;
        for (auto& s : a->a) text += s + ",";
        trace("act %zu %s t=%lu", next, text.c_str(), (unsigned long)(sim::mono_ns() / 1000000));
        rng.seed(atol(a->a.back().c_str()));
        ended = false;
        move = a->a[0] == "undo" || a->a[0] == "redo";
        is_save = a->a[0] == "save" || a->a[0] == "saveas";
        was_modified = S->w->isWindowModified();
        boxes0 = S->error_boxes;
        saves0 = S->saves;
        model0 = S->w->m_model.get();
        filling = nullptr;
        reject = false;
        save_path = "out.xml";
        expects = S->w->m_model && (a->a[0] == "add" || a->a[0] == "edit" || a->a[0] == "remove" || a->a[0] == "name");
        if (expects) before = expected = snapshot(*S->w->m_model);
        loose.clear();
        either.clear();
        target.clear();
        refused = false;
        want_settings = settings_text();
      }
    }
    if (!a) {
      S->w->close();
      return;
    }
    if (depth) trace("(within the action before)");
    Depth deeper{depth};
    perform(a->a);
  }

  int depth = 0;
  struct Depth {
    int& n;
    explicit Depth(int& x) : n(x) { ++n; }
    ~Depth() { --n; }
  };

  void finish() {  // the action has ended
    ended = true;
    look(move);
    if (was_modified && model0 != S->w->m_model.get() && S->saves == saves0 && !S->discarded) bad("lost-changes", "another model was opened without saving the changes or asking");
    if (expects && S->w->m_model) check_edit();
    if (settings_text() != want_settings) bad("settings", "the settings are " + settings_text() + " and not " + want_settings);
    if (is_save && was_modified && !S->cancelled && S->w->m_model) {
      bool saved = S->saves > saves0;
      if (!saved && S->error_boxes == boxes0) bad("silent-failure", "a save neither saved the model nor reported an error");
    }
  }
  // The analysis has ended; ref: the report of one without the GUI.
  void check_run(const std::string& ref, int id, std::size_t next0, mef::Model* model, int index) {
    gui::MainWindow* w = S->w;
    bool changed = w->m_model.get() != model || w->m_undoStack->index() != index;
    if (changed && w->m_analysis && w->m_analysis->model_ == w->m_model.get()) bad("stale-report", "the report shown is of the model before an edit");
    if (changed || next != next0) {  // the user was faster
      trace("overtaken");
      return;
    }
    if (!w->m_analysis) return bad("no-report", "there is no report after the analysis");
    if (!w->ui->reportTree->model() || w->ui->reportTree->model()->rowCount({}) != (int)w->m_analysis->results().size()) return bad("report-tree", "the report is not shown");
    report_text(*w->m_analysis, "gui-report.xml");
    rename_quiet("gui-report.xml", ("report-gui-" + std::to_string(id) + ".xml").c_str());
    rename_quiet(ref.c_str(), ("report-ref-" + std::to_string(id) + ".xml").c_str());
    trace("analysis compared %d", id);
    check_report_tree();
    if (!w->ui->actionExportReportAs->isEnabled()) bad("export-disabled", "the report cannot be exported after the analysis");
    if (!w->isEnabled()) bad("disabled", "the window stays disabled after the analysis");
  }
  static void rename_quiet(const char* a, const char* b) { syscall(SYS_rename, a, b); }

  // ---- what the dialogs are to do
  std::string settings_text() {
    const core::Settings& s = S->w->m_settings;
    std::ostringstream o;
    o << (int)s.algorithm() << " " << (int)s.approximation() << " pi " << s.prime_implicants() << " p " << s.probability_analysis() << " imp "
      << s.importance_analysis() << " order " << s.limit_order() << " time " << s.mission_time();
    return o.str();
  }

  std::string expression_state(gui::EventDialog* d) {
    if (!d->expressionBox->isChecked()) return "-";
    return d->stackedWidgetExpressionData->currentIndex() ? "e" + d->exponentialRate->text().toStdString() : "c" + d->constantValue->text().toStdString();
  }

  void expect_event(gui::EventDialog* d) {  // the dialog has been accepted
    Snap& x = expected;
    bool adding = d->m_event == nullptr;
    std::string old = d->m_initName.toStdString(), id = d->nameLine->text().toStdString();
    El e;
    char kind = d->currentType() == gui::EventDialog::HouseEvent ? 'h' : d->currentType() == gui::EventDialog::Gate ? 'g' : 'b';
    bool same = false;
    if (!adding) {
      auto it = x.els.find(old);
      if (it == x.els.end()) return bad("edit-result", "the dialog is for " + old + " which is not in the model");
      e = it->second;
      x.els.erase(it);
      same = e.kind == kind;
      if (!same) loose.insert(id);
      if (old != id)
        for (auto& g : x.els)
          if (g.second.args.erase(old)) g.second.args.insert(id);
    }
    e.kind = kind;
    e.label = d->labelText->toPlainText().simplified().toStdString();
    if (!same) e.attributes.clear();
    if (kind == 'h') {
      e.state = d->stateBox->currentIndex() == 1;
    } else if (kind == 'b') {
      e.undeveloped = d->currentType() == gui::EventDialog::Undeveloped;
      std::string now = expression_state(d);
      if (!same || now != expr0) {
        std::string was = e.expr;
        if (now == "-") e.expr.clear();
        else if (now[0] == 'c') e.expr = number(d->constantValue->text().toDouble());
        else e.expr = std::string(typeid(mef::Exponential).name()) + "(" + number(d->exponentialRate->text().toDouble()) + ",mission-time,)";
        std::string head = e.expr.substr(0, e.expr.find(',') + 1);  // the same rate with another time
        if (same && now[0] == 'e' && was.compare(0, head.size(), head) == 0) either = was;
      }
    } else {
      e.connective = mef::kConnectiveToString[d->connectiveBox->currentIndex()];
      e.min = d->connectiveBox->currentIndex() == mef::kAtleast ? std::to_string(d->minNumberBox->value()) : std::string();
      e.args.clear();
      for (int i = 0; i < d->argsList->count(); ++i) {
        std::string a = d->argsList->item(i)->text().toStdString();
        e.args.insert(a);
        if (!x.els.count(a) && a != id) {
          El n;
          n.undeveloped = true;
          x.els[a] = n;
        }
      }
      if (adding) x.fts.insert(e.ft = d->containerFaultTreeName->text().toStdString());
      else if (!same) e.ft = d->containerFaultTreeName->text().toStdString();
    }
    x.els[id] = e;
    target = id;
  }

  void expect_removal() {
    Snap& x = expected;
    auto it = x.els.find(target);
    if (it == x.els.end()) return bad("remove-result", "the table has a row for " + target + " which is not in the model");
    El e = it->second;
    bool root = e.kind == 'g' && before.tops.count(target);
    bool free = !before.used(target) && !(root && before.gates(e.ft) > 1);
    if (free == refused) bad("remove-refusal", std::string("the removal of ") + target + (refused ? " is refused though nothing depends on it" : " is not refused though something depends on it"));
    if (refused) return;
    x.els.erase(it);
    if (root) x.fts.erase(e.ft);
  }

  void check_edit() {
    const char* sig = "edit-result";
    std::string now = snapshot(*S->w->m_model).text(loose);
    if (acting() == "remove" && !target.empty()) {
      sig = "remove-result";
      expect_removal();
    }
    if (acting() == "name") sig = "name-result";
    std::string want = expected.text(loose);
    if (now != want && !either.empty() && !target.empty()) {
      expected.els[target].expr = either;
      if (now == expected.text(loose)) return;
    }
    if (now != want) bad(sig, "after the accepted dialog the model is another than it says: " + first_diff(want, now));
  }

  std::string acting() { return next ? acts[next - 1].a[0] : std::string(); }

  void check_report_tree() {
    gui::MainWindow* w = S->w;
    auto* m = w->ui->reportTree->model();
    for (int r = 0; r < m->rowCount({}); ++r) {
      const core::RiskAnalysis::Result& res = w->m_analysis->results()[r];
      QModelIndex p = m->index(r, 0, {});
      std::string name = cell(m, r, 0).toStdString();
      auto* gate = std::get_if<const mef::Gate*>(&res.id.target);
      if (!gate || (*gate)->id() != name) bad("report-name", "the report lists " + name);
      if (m->rowCount(p) > 1) {
        QString want = QStringLiteral("Probability (%1)").arg(res.probability_analysis->p_total());
        if (cell(m, 1, 0, p) != want) bad("report-probability", "the report shows " + cell(m, 1, 0, p).toStdString());
      }
    }
  }

  // ---- dialogs
  void dialog(QWidget* d) {
    if (auto* box = qobject_cast<QMessageBox*>(d)) {
      QAbstractButton* button = nullptr;
      {
        Harness h;
        std::string title = box->windowTitle().toStdString(), text = box->text().toStdString();
        trace("box %s: %s", title.c_str(), text.substr(0, 160).c_str());
        ++S->boxes;
        if (title.find("Dependency") == 0) refused = true;
        if (title == "Assertion Failure" || title.find("Internal") == 0) {
          bad("internal-error", title + ": " + text + " " + box->detailedText().toStdString().substr(0, 200));
          ++S->internal_boxes;
        } else if (box->icon() == QMessageBox::Critical) {
          ++S->error_boxes;
        }
        auto all = box->buttons();
        if (box->standardButtons() & QMessageBox::Discard) {
          QMessageBox::StandardButton c[] = {QMessageBox::Save, QMessageBox::Discard, QMessageBox::Cancel};
          auto pick = leaving > 2 ? QMessageBox::Discard : c[rng.below(3)];
          trace("answer %d", (int)pick);
          button = box->button(pick);
          if (pick == QMessageBox::Cancel) S->cancelled = true;
          if (pick == QMessageBox::Discard) S->discarded = true;
        } else {
          button = box->button(QMessageBox::Ok);
          if (!button && !all.empty()) button = all.front();
        }
      }
      if (button) button->click();
      return;
    }
    if (auto* p = qobject_cast<QProgressDialog*>(d)) {
      make_noise(p);
      return;
    }
    if (d->objectName() == "sim-file-dialog") {
      bool no;
      {
        Harness h;
        no = reject || save_path.empty();
        if (no) S->cancelled = true;
      }
      no ? static_cast<QDialog*>(d)->reject() : static_cast<QDialog*>(d)->accept();
      return;
    }
    if (auto* e = qobject_cast<gui::EventDialog*>(d)) {
      if (filling != d) {
        filling = d;
        expr0 = e->m_event ? expression_state(e) : std::string();
        fill(e);
        return;
      }
      bool ok;
      QPushButton* b = e->buttonBox->button(QDialogButtonBox::Ok);
      {
        Harness h;
        ok = b->isEnabled() && rng.below(12);
        trace("event dialog %s", ok ? "accepted" : b->isEnabled() ? "rejected" : "not valid");
        if (ok) expect_event(e);
      }
      filling = nullptr;
      if (ok) b->click();
      else e->reject();
      return;
    }
    if (auto* line = d->findChild<QLineEdit*>("nameLine")) {  // the model's name
      if (filling != d) {
        filling = d;
        line->setText(rng.below(4) ? QString::fromStdString(pick_name("M", 5)) : QString());
        return;
      }
      filling = nullptr;
      bool ok = rng.below(8);
      if (ok) expected.name = line->text().toStdString();
      static_cast<QDialog*>(d)->done(ok ? QDialog::Accepted : QDialog::Rejected);
      return;
    }
    if (auto* e = qobject_cast<gui::PreferencesDialog*>(d)) {
      if (filling != d) {
        filling = d;
        set_preferences(e->ui.get());
        return;
      }
      filling = nullptr;
      {
        Harness h;
        bool on = e->ui->checkAutoSave->isChecked(), limited = e->ui->checkUndoLimit->isChecked();
        long ms = on ? e->ui->autoSaveBox->value() * 60000l : 0, limit = limited ? e->ui->undoLimitBox->value() : 0;
        if (auto_touched) S->auto_ms = ms, S->unsaved_since = 0;
        QTimer* timer = S->w->m_autoSaveTimer;
        if (timer->isActive() != (S->auto_ms != 0) || (S->auto_ms && timer->interval() != S->auto_ms))
          bad("preferences", "automatic saving is set to " + std::to_string(S->auto_ms) + " ms and " + (timer->isActive() ? "every " + std::to_string(timer->interval()) + " ms" : "off"));
        if (auto_touched && S->w->m_preferences.value("autoSave").toInt() != S->auto_ms) bad("preferences", "the interval of automatic saves is not kept");
        if (limit_touched && S->w->m_preferences.value("undoLimit").toInt() != limit) bad("preferences", "the limit of the history is not kept");
        if (limit_touched && !S->w->m_undoStack->count() && S->w->m_undoStack->undoLimit() != limit) bad("preferences", "the limit of the history is not in force");
        trace("preferences %ld %ld", S->auto_ms, limit);
      }
      static_cast<QDialog*>(d)->done(rng.below(2));
      return;
    }
    if (auto* e = qobject_cast<gui::SettingsDialog*>(d)) {
      if (filling != d) {
        filling = d;
        set_settings(e->ui.get());
        return;
      }
      filling = nullptr;
      bool ok = rng.below(8);
      if (ok) {
        Harness h;
        auto* u = e->ui.get();
        std::ostringstream o;
        o << (int)(u->bdd->isChecked() ? core::Algorithm::kBdd : u->zbdd->isChecked() ? core::Algorithm::kZbdd : core::Algorithm::kMocus) << " "
          << (int)(!u->approximationsBox->isChecked() ? core::Approximation::kNone : u->rareEvent->isChecked() ? core::Approximation::kRareEvent : core::Approximation::kMcub)
          << " pi " << u->primeImplicants->isChecked() << " p " << u->probability->isChecked() << " imp " << u->importance->isChecked() << " order " << u->productOrder->value()
          << " time " << u->missionTime->value();
        want_settings = o.str();
        trace("settings %s", want_settings.c_str());
      }
      static_cast<QDialog*>(d)->done(ok ? QDialog::Accepted : QDialog::Rejected);
      return;
    }
    trace("unknown dialog %s", d->metaObject()->className());
    static_cast<QDialog*>(d)->reject();
  }

  bool auto_touched = false, limit_touched = false;
  void set_preferences(Ui::PreferencesDialog* u) {
    auto_touched = limit_touched = false;
    for (int n = 1 + rng.below(4); n; --n) switch (rng.below(4)) {
        case 0:
          u->checkAutoSave->click();
          auto_touched = true;
          break;
        case 1:
          if (!u->autoSaveBox->isEnabled()) break;
          {
            int v = 1 + rng.below(5);
            auto_touched |= v != u->autoSaveBox->value();
            u->autoSaveBox->setValue(v);
          }
          break;
        case 2:
          if (!rng.below(2)) break;
          u->checkUndoLimit->click();
          limit_touched = true;
          break;
        default:
          if (!u->undoLimitBox->isEnabled()) break;
          {
            int v = 6 + rng.below(4);
            limit_touched |= v != u->undoLimitBox->value();
            u->undoLimitBox->setValue(v);
          }
      }
  }
  void set_settings(Ui::SettingsDialog* u) {
    QAbstractButton* all[] = {u->bdd, u->zbdd, u->mocus, u->primeImplicants, u->probability, u->importance, u->rareEvent, u->mcub};
    int n = 1 + rng.below(5);
    for (int i = 0; i < n; ++i) {
      int k = rng.below(11);
      if (k < 8) {
        if (all[k]->isEnabled()) all[k]->click();
      } else if (k == 8) {
        if (u->approximationsBox->isEnabled()) u->approximationsBox->setChecked(!u->approximationsBox->isChecked());
      } else if (k == 9) {
        u->productOrder->setValue(1 + rng.below(6));
      } else {
        static const double t[] = {1, 24, 8760, 123.45, 0.5};
        u->missionTime->setValue(t[rng.below(5)]);
      }
    }
  }

  void make_noise(QProgressDialog* p) {  // impatience during the analysis
    ++waits;
    later(noise_ms ? (1 + rng.below(noise_ms)) * 1000000ull : 1000000000ull);
    if (!noise_ms || noise >= 60) return;
    ++noise;
    int what = rng.below(9);
    QWindow* dw = p->windowHandle();
    QWindow* mw = S->w->windowHandle();
    QWindow* t = rng.below(2) && dw ? dw : mw;
    trace("noise %d", what);
    auto key = [&](int k, Qt::KeyboardModifiers m) {
      qt_handleKeyEvent(t, QEvent::KeyPress, k, m, QString(), false, 1);
      qt_handleKeyEvent(t, QEvent::KeyRelease, k, m, QString(), false, 1);
    };
    switch (what) {
      case 0: key(Qt::Key_Escape, Qt::NoModifier); break;
      case 1: key(Qt::Key_Return, Qt::NoModifier); break;
      case 2: key(Qt::Key_S, Qt::ControlModifier); break;
      case 3: key(Qt::Key_Z, Qt::ControlModifier); break;
      case 4: key(Qt::Key_N, Qt::ControlModifier); break;
      case 5: key(Qt::Key_Delete, Qt::NoModifier); break;
      case 6: key(Qt::Key_Q, Qt::ControlModifier); break;
      case 7: if (rng.below(6) == 0) p->close(); break;
      case 8: key(Qt::Key_Space, Qt::NoModifier); break;
    }
  }

  // ---- data for dialogs
  std::string pick_name(const char* prefix, int n) { return prefix + std::to_string(rng.below(n)); }

  std::vector<std::string> events() {
    std::vector<std::string> v;
    for (auto& g : S->w->m_model->gates()) v.push_back(g.id());
    for (auto& b : S->w->m_model->basic_events()) v.push_back(b.id());
    for (auto& h : S->w->m_model->house_events()) v.push_back(h.id());
    std::sort(v.begin(), v.end());
    return v;
  }

  void set_type(gui::EventDialog* d, int t) {
    if (!static_cast<QListView*>(d->typeBox->view())->isRowHidden(t)) d->typeBox->setCurrentIndex(t);
  }

  void add_arg(gui::EventDialog* d) {
    auto v = events();
    std::string name = v.empty() || rng.below(5) == 0 ? pick_name("N", 30) : v[rng.below(v.size())];
    d->addArgLine->setText(QString::fromStdString(name));
    if (rng.below(2)) d->addArgButton->click();
    else emit d->addArgLine->returnPressed();
  }

  void formula(gui::EventDialog* d) {
    int c = rng.below(3) ? d->connectiveBox->currentIndex() : (int)rng.below(d->connectiveBox->count());
    d->connectiveBox->setCurrentIndex(c);
    int changes = 1 + rng.below(3);
    for (int i = 0; i < changes; ++i) {
      if (d->argsList->count() && rng.below(3) == 0) {
        if (rng.below(2)) d->argsList->setCurrentRow(rng.below(d->argsList->count()));
        d->removeArgButton->click();
      } else {
        add_arg(d);
      }
    }
    int want_min = c == mef::kNot || c == mef::kNull ? 1 : c == mef::kAtleast ? 3 : 2;
    int want_max = c == mef::kNot || c == mef::kNull ? 1 : c == mef::kXor ? 2 : 6;
    for (int i = 0; i < 12 && d->argsList->count() < want_min; ++i) add_arg(d);
    for (int i = 0; i < 12 && d->argsList->count() > want_max; ++i) d->removeArgButton->click();
    if (c == mef::kAtleast && rng.below(2)) d->minNumberBox->setValue(2 + rng.below(3));
  }

  void expression(gui::EventDialog* d) {
    static const char* const kValues[] = {"0.1", "0.25", "1e-3", "0.123456789", "1", "0", "1e-10", "0.5"};
    if (rng.below(5) == 0) d->expressionBox->setChecked(!d->expressionBox->isChecked());
    else d->expressionBox->setChecked(true);
    d->expressionType->setCurrentIndex(rng.below(2));
    d->constantValue->setText(kValues[rng.below(8)]);
    d->exponentialRate->setText(kValues[rng.below(8)]);
  }

  void fill(gui::EventDialog* d) {
    bool adding = d->m_event == nullptr;
    if (adding || rng.below(4) == 0) d->nameLine->setText(QString::fromStdString(rng.below(12) ? pick_name("E", 60) : rng.below(2) ? std::string("bad.name") : std::string()));
    if (rng.below(adding ? 3 : 4) == 0) d->labelText->setPlainText(QString::fromStdString(rng.below(4) ? "label " + pick_name("L", 9) : std::string(rng.below(2) ? "" : " a  <b>&\"q\" \xC3\xA9 ")));
    if (adding || rng.below(4) == 0) set_type(d, rng.below(4));
    switch (d->currentType()) {
      case gui::EventDialog::HouseEvent:
        if (rng.below(2)) d->stateBox->setCurrentIndex(rng.below(2));
        break;
      case gui::EventDialog::BasicEvent:
      case gui::EventDialog::Undeveloped:
        if (adding || rng.below(2)) expression(d);
        break;
      case gui::EventDialog::Gate:
        if (adding || rng.below(3)) formula(d);
        if (d->argsList->count() < 1) formula(d);
        if (d->containerFaultTreeName->isEnabled()) d->containerFaultTreeName->setText(QString::fromStdString(rng.below(10) ? pick_name("T", 40) : "F0"));
        break;
    }
    d->validate();
    {
      Harness h;
      trace("filled %d %s", (int)d->currentType(), d->nameLine->text().toStdString().c_str());
    }
  }

  // ---- actions
  QAbstractItemView* table(int kind) {
    QTabWidget* tabs = S->w->ui->tabWidget;
    for (int i = 0; i < tabs->count(); ++i)
      if (auto* v = qobject_cast<QAbstractItemView*>(tabs->widget(i)))
        if (kind_of(source_of(v->model())) == kind) {
          tabs->setCurrentWidget(v);
          return v;
        }
    open_table(kind);
    return qobject_cast<QAbstractItemView*>(tabs->currentWidget());
  }
  void open_table(int kind) {
    auto* tree = S->w->ui->modelTree;
    static const gui::ModelTree::Row row[] = {gui::ModelTree::Row::Gates, gui::ModelTree::Row::BasicEvents, gui::ModelTree::Row::HouseEvents};
    emit tree->activated(tree->model()->index((int)row[kind], 0, {}));
  }

  void trigger(QAction* a) {
    if (a && a->isEnabled()) a->trigger();
    else trace("(disabled)");
  }

  void perform(const std::vector<std::string>& a) {
    gui::MainWindow* w = S->w;
    const std::string& op = a[0];
    bool has = w->m_model != nullptr;
    if (op == "wait") {
    } else if (op == "new") {
      trigger(w->ui->actionNewModel);
    } else if (op == "open") {
      save_path = a[1];
      trigger(w->ui->actionOpenFiles);
    } else if (op == "save") {
      save_path = a[1];
      reject = save_path == "-";
      trigger(w->ui->actionSave);
    } else if (op == "saveas") {
      save_path = a[1];
      reject = save_path == "-";
      trigger(w->ui->actionSaveAs);
    } else if (op == "close") {
      save_path = a[1];
      reject = save_path == "-";
      S->left = true;
      w->close();
    } else if (op == "prefs") {
      trigger(w->ui->actionPreferences);
    } else if (!has) {
      trace("(no model)");
    } else if (op == "add") {
      trigger(w->ui->actionAddElement);
    } else if (op == "settings") {
      trigger(w->ui->actionSettings);
    } else if (op == "name") {
      trigger(w->ui->actionRenameModel);
    } else if (op == "edit" || op == "remove") {
      QAbstractItemView* v = table(atoi(a[1].c_str()) % 3);
      if (!v) return bad("no-table", "no table is opened");
      int n = v->model()->rowCount({});
      if (!n) return;
      QModelIndex i = v->model()->index(atoi(a[2].c_str()) % n, 0, {});
      v->selectionModel()->setCurrentIndex(i, QItemSelectionModel::ClearAndSelect | QItemSelectionModel::Rows);
      target = cell(v->model(), i.row(), 0).toStdString();
      if (op == "edit") emit v->activated(i);
      else {
        if (!w->ui->actionRemoveElement->isEnabled()) target.clear();
        trigger(w->ui->actionRemoveElement);
      }
    } else if (op == "undo" || op == "redo") {
      for (int k = atoi(a[1].c_str()); k > 0; --k) {
        QAction* x = op == "undo" ? w->m_undoAction : w->m_redoAction;
        if (!x->isEnabled()) break;
        x->trigger();
        if (k > 1) {
          Harness h;
          look(true);
        }
      }
    } else if (op == "table") {
      open_table(atoi(a[1].c_str()) % 3);
    } else if (op == "closetab") {
      if (w->ui->tabWidget->count()) emit w->ui->tabWidget->tabCloseRequested(rng.below(w->ui->tabWidget->count()));
    } else if (op == "sort") {
      QAbstractItemView* v = table(atoi(a[1].c_str()) % 3);
      if (v && v->model()->columnCount({})) v->model()->sort(rng.below(v->model()->columnCount({})), rng.below(2) ? Qt::AscendingOrder : Qt::DescendingOrder);
    } else if (op == "filter") {
      if (!w->m_searchBar->isHidden()) {
        w->m_searchBar->setText(rng.below(2) ? QString() : QString::fromStdString(std::string(1, "EGBHN1"[rng.below(6)])));
        emit w->m_searchBar->editingFinished();
      }
    } else if (op == "scene") {
      for (mef::FaultTree& ft : w->m_guiModel->faultTrees()) {
        if (ft.top_events().size() != 1) continue;
        auto it = w->m_guiModel->gates().find(ft.top_events().front());
        if (it == w->m_guiModel->gates().end()) {
          Harness h;
          bad("top-gate", "the top gate of " + ft.name() + " is no gate of the model");
          continue;
        }
        auto* scene = new gui::diagram::DiagramScene(it->get(), w->m_guiModel.get(), w->ui->modelTree->model());
        (void)scene;
      }
    } else if (op == "run") {
      bool ready;
      std::string ref = "ref-report-" + std::to_string(next) + ".xml";
      int id = next, index = w->m_undoStack->index();
      std::size_t next0 = next;
      mef::Model* model = w->m_model.get();
      {
        Harness h;
        bool missing = false;
        for (auto& b : w->m_model->basic_events()) missing |= !b.HasExpression();
        ready = !(missing && w->m_settings.probability_analysis()) && w->ui->actionRun->isEnabled();
        if (ready) {
          core::RiskAnalysis an(w->m_model.get(), w->m_settings);
          an.Analyze();
          report_text(an, ref.c_str());
        }
      }
      trigger(w->ui->actionRun);
      {
        Harness h;
        if (ready) check_run(ref, id, next0, model, index);
      }
    } else if (op == "export") {
      save_path = a[1];
      reject = save_path == "-";
      trigger(w->ui->actionExportReportAs);
    } else if (op == "report") {
      auto* m = w->ui->reportTree->model();
      if (!m || !m->rowCount({})) return;
      QModelIndex p = m->index(rng.below(m->rowCount({})), 0, {});
      if (m->rowCount(p)) emit w->ui->reportTree->activated(m->index(rng.below(m->rowCount(p)), 0, p));
    } else {
      trace("(unknown)");
    }
  }
};
User* g_user;

int g_poll_key;

int run(const sim::Plan& plan) {
  std::string cwd = plan.get("cwd");
  if (chdir(plan.get("dir").c_str())) return 93;
  int null = ::open("/dev/null", O_RDONLY);
  dup2(null, 0);
  dup2(::open("cout", O_WRONLY | O_CREAT | O_TRUNC, 0666), 1);
  dup2(::open("stderr", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666), 2);
  ::clearenv();
  for (const char* e : {"QT_QPA_PLATFORM=offscreen", "QT_NO_GLIB=1", "QT_HASH_SEED=0", "QT_LOGGING_RULES=*.debug=false", "LANG=en_US.UTF-8",
                        "PATH=/usr/bin:/bin", "TZ=UTC", "NO_AT_BRIDGE=1", "QT_ACCESSIBILITY=0"})
    putenv(strdup(e));
  setenv("HOME", cwd.c_str(), 1);
  setenv("XDG_CONFIG_HOME", (cwd + "/cfg").c_str(), 1);
  setenv("XDG_CACHE_HOME", (cwd + "/cache").c_str(), 1);
  mkdir("run", 0700);
  setenv("XDG_RUNTIME_DIR", (cwd + "/run").c_str(), 1);
  for (const std::string& e : plan.all("env")) putenv(strdup(e.c_str()));
  S = new Session;
  S->auto_ms = plan.num("auto.ms", 300000);
  g_bad = new std::set<std::string>;
  g_user = new User;
  for (const std::string& f : plan.all("watch")) {
    auto& x = S->files[f];
    x.exists = slurp(f, &x.bytes);
  }
  for (const std::string& t : plan.all("act")) {
    std::size_t bar = t.find('|');
    Act a;
    a.at_ms = strtoul(t.c_str(), nullptr, 10);
    a.a = split(t.substr(bar + 1), ',');
    g_user->acts.push_back(a);
  }
  g_user->noise_ms = plan.num("noise.ms", 0);
  g_user->pause = plan.num("pause.ms", 50) * 1000000ull;
  std::vector<std::string> args = plan.all("arg");
  args.insert(args.begin(), "scram-gui");
  std::vector<char*> argv;
  for (auto& a : args) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  if (plan.num("judge", 0)) {  // only says what the files hold
    for (auto& f : S->files) {
      std::string t = load_text(f.first);
      trace("file %s %016lx %s", f.first.c_str(), (unsigned long)digest(t), t[0] == '!' ? "unreadable" : "ok");
    }
    sim::shared->finished = 1;
    return 0;
  }
  sim::arm(plan);
  sim::sched_start(plan);
  sim::file_hook = on_file;
  int rc = gui_main(args.size(), argv.data());
  sim::file_hook = nullptr;
  {
    Harness h;
    S->w = nullptr;
  }
  trace("return %d steps %lu waits %d", rc, (unsigned long)sim::sched_steps(), g_user->waits);
  sim::shared->finished = 1;
  return rc;
}

}  // namespace

// ---------------------------------------------------------------- seams
QString QFileDialog::getSaveFileName(QWidget* parent, const QString&, const QString&, const QString&, QString*, Options) {
  QDialog d(parent);
  d.setObjectName("sim-file-dialog");
  if (d.exec() != QDialog::Accepted) return QString();
  return absolute(g_user->save_path);
}
QStringList QFileDialog::getOpenFileNames(QWidget* parent, const QString&, const QString&, const QString&, QString*, Options) {
  QDialog d(parent);
  d.setObjectName("sim-file-dialog");
  if (d.exec() != QDialog::Accepted) return {};
  QStringList l;
  for (auto& s : split(g_user->save_path, '+')) l << absolute(s);
  return l;
}

extern "C" {

int ppoll(struct pollfd* fds, nfds_t n, const struct timespec* timeout, const sigset_t* mask) {
  timespec zero{0, 0};
  auto ready = [&] { return (int)syscall(SYS_ppoll, fds, n, &zero, nullptr, 0); };
  if (!sim::armed() || !sim::sched_mine() || sim::sched_self() != 0)
    return syscall(SYS_ppoll, fds, n, timeout, mask, 8);
  std::uint64_t end = 0;
  if (timeout) end = sim::mono_ns() + timeout->tv_sec * 1000000000ull + timeout->tv_nsec;
  if (!S->w) g_user->attach();
  for (;;) {
    int r = ready();
    if (r) return r;
    if (timeout && end <= sim::mono_ns()) return 0;
    std::uint64_t due = g_user->posted ? 0 : g_user->due;
    if (due && due <= sim::mono_ns()) {
      ++g_user->posted;
      QCoreApplication::postEvent(g_user, new QEvent(QEvent::User), Qt::LowEventPriority);
      continue;
    }
    std::uint64_t until = due && (!end || due < end) ? due : end;
    sim::sched_wait(&g_poll_key, until);
  }
}
int poll(struct pollfd* fds, nfds_t n, int ms) {
  timespec t{ms / 1000, (ms % 1000) * 1000000l};
  if (sim::armed()) return ppoll(fds, n, ms < 0 ? nullptr : &t, nullptr);
  return syscall(SYS_poll, fds, n, ms);
}
int eventfd_write(int fd, eventfd_t v) {
  if (syscall(SYS_write, fd, &v, sizeof v) != sizeof v) return -1;
  if (sim::sched_on()) sim::sched_wake(&g_poll_key);
  if (sim::armed()) sim::sched_point("event");
  return 0;
}
pid_t getpid() { return sim::armed() ? 4242 : syscall(SYS_getpid); }
}

int main() {
  g_schema = new scram::xml::Validator(scram::env::install_dir() + "/share/scram/gui.rng");
  const char* dir = getenv("SIM_WARM_DIR");
  std::string model = std::string(dir ? dir : "/tmp") + "/warm.xml";
  {
    std::ofstream(model) << "<opsa-mef/>\n";
    try {
      mef::Initializer({model}, core::Settings(), false, g_schema);
    } catch (...) {
    }
  }
  sim::serve(&run);
  return 0;
}
