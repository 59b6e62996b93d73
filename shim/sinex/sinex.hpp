#pragma once
// Stand-in for the SINEX library: an in-memory solution the harness fills in.
#include "datetime/dtcalendar.hpp"
#include <algorithm>
#include <cstring>
#include <string>
#include <vector>
namespace dso {
namespace sinex {
struct SiteId {
  char m_site_code[5]{0}, m_point_code[3]{0}, m_domes[10]{0};
  const char *site_code() const noexcept { return m_site_code; }
};
struct SolutionEstimate {
  int m_index{0};
  char m_param_type[7]{0}, m_site_code[5]{0}, m_point_code[3]{0}, m_soln_id[5]{0}, m_units[5]{0}, m_constraint[2]{0};
  dso::datetime<dso::microseconds> m_epoch;
  double m_estimate{0}, m_std_dev{0};
};
struct ShimFile { std::vector<SiteId> sites; std::vector<SolutionEstimate> est; bool site_error{false}, est_error{false}; };
inline ShimFile &shim_file() { static ShimFile f; return f; }
} // namespace sinex
class Sinex {
  std::string fn_;
public:
  explicit Sinex(const char *fn) : fn_(fn) {}
  const std::string &filename() const noexcept { return fn_; }
  // sites of the request list that the file holds, in file order
  int parse_block_site_id(std::vector<sinex::SiteId> &v, int n = 0, char **ids = nullptr) noexcept {
    auto &f = sinex::shim_file();
    v.clear();
    if (f.site_error) return 1;
    for (const auto &s : f.sites) {
      bool want = n == 0;
      for (int i = 0; i < n; i++) want = want || !std::strncmp(ids[i], s.m_site_code, 4);
      if (want) v.push_back(s);
    }
    return 0;
  }
  int parse_block_solution_estimate(std::vector<sinex::SolutionEstimate> &v, const std::vector<sinex::SiteId> &s) noexcept {
    auto &f = sinex::shim_file();
    v.clear();
    if (f.est_error) return 1;
    for (const auto &e : f.est)
      for (const auto &i : s)
        if (!std::strncmp(e.m_site_code, i.m_site_code, 4)) { v.push_back(e); break; }
    return 0;
  }
};
} // namespace dso
