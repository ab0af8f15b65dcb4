// reader for the recorded .vcg file (helper of the harnesses)
#ifndef VCGFILE_H
#define VCGFILE_H
struct VcgCell { long id, region; double x[3], vol; };
struct VcgConn { long a, b; double m[3], area, n[3]; };
static bool read_vcg(const std::string& text, std::vector<VcgCell>& C, std::vector<VcgConn>& F) {
  size_t p = 0; auto tok = [&]() { while (p < text.size() && isspace((unsigned char)text[p])) p++; size_t q = p; while (p < text.size() && !isspace((unsigned char)text[p])) p++; return text.substr(q, p - q); };
  if (tok() != "CELLS") return false; long n = atol(tok().c_str()); if (n < 0 || n > 1000) return false;
  for (long i = 0; i < n; i++) { VcgCell c; c.id = atol(tok().c_str()); for (int d = 0; d < 3; d++) c.x[d] = sx_parse(tok().c_str()); c.vol = sx_parse(tok().c_str()); std::string r = tok(); if (r.empty()) return false; c.region = atol(r.c_str()); C.push_back(c); }
  if (tok() != "CONNECTIONS") return false; n = atol(tok().c_str()); if (n < 0 || n > 1000) return false;
  for (long i = 0; i < n; i++) { VcgConn c; c.a = atol(tok().c_str()); c.b = atol(tok().c_str()); for (int d = 0; d < 3; d++) c.m[d] = sx_parse(tok().c_str()); c.area = sx_parse(tok().c_str()); std::string r; for (int d = 0; d < 3; d++) { r = tok(); if (r.empty()) return false; c.n[d] = sx_parse(r.c_str()); } F.push_back(c); }
  return tok().empty();
}
#endif
