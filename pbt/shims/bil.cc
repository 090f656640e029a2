// Stands in for lttoolbox's bilingual lookup: the "compiled dictionary" is a text file of lines "word TAB translation/translation...".
// (The biltransWithQueue of the lttoolbox installed here returns damaged words when called without delimiters.)
#include <lttoolbox/fst_processor.h>
#include <lttoolbox/ustring.h>
#include <map>
#include <string>

static std::map<const FSTProcessor *, std::map<UString, UString>> tables;

void FSTProcessor::load(FILE *in) {
  std::string s;
  int c;
  while ((c = fgetc(in)) != EOF) {
    if (c == '\n') {
      size_t t = s.find('\t');
      tables[this][to_ustring(s.substr(0, t).c_str())] = to_ustring(s.substr(t + 1).c_str());
      s.clear();
    } else {
      s += c;
    }
  }
}

void FSTProcessor::initBiltrans() {}

static std::pair<UString, int> look(const FSTProcessor *p, UStringView in, bool delim, bool queue) {
  UString w(in);
  if (delim) {
    w = w.substr(1, w.size() - 2);
  }
  auto &t = tables[p];
  UString best;
  size_t len = 0;
  bool found = false;
  for (auto &e : t) {
    if (w.compare(0, e.first.size(), e.first) == 0 && (e.first.size() == w.size() || w[e.first.size()] == '<' || w[e.first.size()] == '#') && (!found || e.first.size() > len)) {
      found = true;
      len = e.first.size();
      best = e.second;
    }
  }
  UString out;
  UString rest = found && queue ? w.substr(len) : UString();
  if (found) {
    for (size_t i = 0; i < best.size(); i++) {
      if (best[i] == '\\') {
        out += best[i++];
      } else if (best[i] == '/') {
        out += rest;
      }
      out += best[i];
    }
    out += rest;
  } else {
    out += '@';
    out += w;
  }
  if (delim) {
    out = UString(1, '^') + out + UString(1, '$');
  }
  return {out, (int)rest.size()};
}

std::pair<UString, int> FSTProcessor::biltransWithQueue(UStringView w, bool d) { return look(this, w, d, true); }
UString FSTProcessor::biltrans(UStringView w, bool d) { return look(this, w, d, true).first; }
UString FSTProcessor::biltransfull(UStringView w, bool d) { return look(this, w, d, true).first; }
UString FSTProcessor::biltransWithoutQueue(UStringView w, bool d) { return look(this, w, d, false).first; }
