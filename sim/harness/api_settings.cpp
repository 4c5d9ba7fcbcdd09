#include "api.h"
#include "queso/embedded_model.h"
#include "queso/includes/dictionary_factory.hpp"
#include "queso/utilities/check_dictionary_utilities.hpp"
#include <sstream>

using namespace queso;
using Dict = Dictionary<key::MainValuesTypeTag>;
using Access = DictionaryStringAccess<Dict>;

namespace api {

struct Settings { Unique<Dict> d; std::unique_ptr<EmbeddedModel> m; };

static const Dict& root(const Settings& s) { return s.m ? s.m->GetSettings() : *s.d; }
static Dict& resolve(const Settings& s, const Path& p) {
  Dict* d = const_cast<Dict*>(&root(s));
  for (auto& name : p) {
    const size_t at = name.find('#');
    if (at == std::string::npos) d = &Access::GetSubDictionary(*d, name);
    else d = Access::GetList(*d, name.substr(0, at)).at(std::stoul(name.substr(at + 1))).get();
  }
  return *d;
}
static PointType pt(const geo::V3& v) { return PointType{ v[0], v[1], v[2] }; }
static Vector3i iv(const std::array<uint64_t, 3>& v) { return Vector3i{ v[0], v[1], v[2] }; }
static Val val(const std::string& x) { Val v; v.type = V_STRING; v.s = x; return v; }
static Val val(const IndexType& x) { Val v; v.type = V_INDEX; v.i = x; return v; }
static Val val(const double& x) { Val v; v.type = V_DOUBLE; v.d = x; return v; }
static Val val(const bool& x) { Val v; v.type = V_BOOL; v.b = x; return v; }
static Val val(const PointType& x) { Val v; v.type = V_VEC3; v.v = { x[0], x[1], x[2] }; return v; }
static Val val(const Vector3i& x) { Val v; v.type = V_IVEC3; v.iv = { x[0], x[1], x[2] }; return v; }
static Val val(const IntegrationMethodType& x) { Val v; v.type = V_METHOD; v.i = static_cast<uint64_t>(x); return v; }
static Val val(const GridTypeType& x) { Val v; v.type = V_GRID; v.i = static_cast<uint64_t>(x); return v; }

std::shared_ptr<Settings> dict_create(const std::string& name) {
  auto s = std::make_shared<Settings>();
  s->d = DictionaryFactory<key::MainValuesTypeTag>::Create(name);
  return s;
}
void dict_set(Settings& s, const Path& p, const std::string& key, const Val& v) {
  Dict& d = resolve(s, p);
  switch (v.type) {
    case V_STRING: Access::SetValue(d, key, v.s); break;
    case V_INDEX: Access::SetValue(d, key, static_cast<IndexType>(v.i)); break;
    case V_DOUBLE: Access::SetValue(d, key, v.d); break;
    case V_BOOL: Access::SetValue(d, key, v.b); break;
    case V_VEC3: Access::SetValue(d, key, pt(v.v)); break;
    case V_IVEC3: Access::SetValue(d, key, iv(v.iv)); break;
    case V_METHOD: Access::SetValue(d, key, static_cast<IntegrationMethodType>(v.i)); break;
    default: Access::SetValue(d, key, static_cast<GridTypeType>(v.i));
  }
}
void dict_set_signed(Settings& s, const Path& p, const std::string& key, int v) { Access::SetValue(resolve(s, p), key, v); }
Val dict_get(const Settings& s, const Path& p, const std::string& key, int type) {
  const Dict& d = resolve(s, p);
  switch (type) {
    case V_STRING: return val(Access::GetValue<std::string>(d, key));
    case V_INDEX: return val(Access::GetValue<IndexType>(d, key));
    case V_DOUBLE: return val(Access::GetValue<double>(d, key));
    case V_BOOL: return val(Access::GetValue<bool>(d, key));
    case V_VEC3: return val(Access::GetValue<PointType>(d, key));
    case V_IVEC3: return val(Access::GetValue<Vector3i>(d, key));
    case V_METHOD: return val(Access::GetValue<IntegrationMethodType>(d, key));
    default: return val(Access::GetValue<GridTypeType>(d, key));
  }
}

template<class K> static void set_by_key(Dict& d, const K& k, const Val& v) {
  using T = typename K::KeyToWhat;
  if constexpr (std::is_same_v<T, std::string>) d.SetValue(k, v.s);
  else if constexpr (std::is_same_v<T, IndexType>) d.SetValue(k, static_cast<IndexType>(v.i));
  else if constexpr (std::is_same_v<T, double>) d.SetValue(k, v.d);
  else if constexpr (std::is_same_v<T, bool>) d.SetValue(k, v.b);
  else if constexpr (std::is_same_v<T, PointType>) d.SetValue(k, pt(v.v));
  else if constexpr (std::is_same_v<T, Vector3i>) d.SetValue(k, iv(v.iv));
  else d.SetValue(k, static_cast<T>(v.i));
}
template<class K> static void get_by_key(const Dict& d, const K& k, Val& out) {
  using T = typename K::KeyToWhat;
  if constexpr (K::msIsRequired) out = val(d.GetRequiredValue<T>(k));
  else { const auto r = d.TryGetValue<T>(k); out = r ? val(r->get()) : Val{}; if (r.has_value() != d.IsSet(k)) out.s = "(IsSet and TryGetValue disagree)"; }
}
#define KEYS(X) \
  X(general_settings, GeneralSettings, input_filename) X(general_settings, GeneralSettings, output_directory_name) X(general_settings, GeneralSettings, echo_level) X(general_settings, GeneralSettings, write_output_to_file) \
  X(background_grid_settings, BackgroundGridSettings, grid_type) X(background_grid_settings, BackgroundGridSettings, lower_bound_xyz) X(background_grid_settings, BackgroundGridSettings, upper_bound_xyz) \
  X(background_grid_settings, BackgroundGridSettings, lower_bound_uvw) X(background_grid_settings, BackgroundGridSettings, upper_bound_uvw) X(background_grid_settings, BackgroundGridSettings, polynomial_order) \
  X(background_grid_settings, BackgroundGridSettings, number_of_elements) \
  X(trimmed_quadrature_rule_settings, TrimmedQuadratureRuleSettings, moment_fitting_residual) X(trimmed_quadrature_rule_settings, TrimmedQuadratureRuleSettings, min_element_volume_ratio) \
  X(trimmed_quadrature_rule_settings, TrimmedQuadratureRuleSettings, min_num_boundary_triangles) X(trimmed_quadrature_rule_settings, TrimmedQuadratureRuleSettings, neglect_elements_if_stl_is_flawed) \
  X(trimmed_quadrature_rule_settings, TrimmedQuadratureRuleSettings, activate_fictitious_domain_with_alpha) \
  X(non_trimmed_quadrature_rule_settings, NonTrimmedQuadratureRuleSettings, integration_method) \
  X(conditions_settings_list, ConditionSettings, condition_id) X(conditions_settings_list, ConditionSettings, condition_type) X(conditions_settings_list, ConditionSettings, input_filename) \
  X(conditions_settings_list, ConditionSettings, modulus) X(conditions_settings_list, ConditionSettings, direction) X(conditions_settings_list, ConditionSettings, value) X(conditions_settings_list, ConditionSettings, penalty_factor)
static std::string last_of(const Path& p) { return p.empty() ? "conditions_settings_list" : p.back().substr(0, p.back().find('#')); }
bool dict_set_typed(Settings& s, const Path& p, const std::string& key, const Val& v) {
  Dict& d = resolve(s, p);
  const std::string l = last_of(p);
#define X(node, set, name) if (l == #node && key == #name) { set_by_key(d, set::name, v); return true; }
  KEYS(X)
#undef X
  return false;
}
bool dict_get_typed(const Settings& s, const Path& p, const std::string& key, Val& out) {
  const Dict& d = resolve(s, p);
  const std::string l = last_of(p);
#define X(node, set, name) if (l == #node && key == #name) { get_by_key(d, set::name, out); return true; }
  KEYS(X)
#undef X
  return false;
}
bool dict_is_set(const Settings& s, const Path& p, const std::string& key) { return Access::IsSet(resolve(s, p), key); }
bool dict_has(const Settings& s, const Path& p, const std::string& key) { return Access::Has(resolve(s, p), key); }
void dict_resolve(const Settings& s, const Path& p) { resolve(s, p); }
uint64_t dict_list_size(const Settings& s, const Path& p, const std::string& list) { return Access::GetList(resolve(s, p), list).size(); }
void dict_append(Settings& s, const Path& p, const std::string& list, const std::string& what) {
  auto c = DictionaryFactory<key::MainValuesTypeTag>::Create(what);
  Access::GetList(resolve(s, p), list).push_back(std::move(c));
}
void dict_check_required(const Settings& s) { root(s).CheckRequired(); }
void dict_check_settings(const Settings& s) { CheckDictionaryUtilities::CheckSettings(root(s)); }
std::string dict_print(const Settings& s) { std::ostringstream o; o << root(s); return o.str(); }
void dict_move(Settings& s) {
  if (s.m) { auto m = std::make_unique<EmbeddedModel>(std::move(*s.m)); s.m = std::move(m); return; }
  auto d = MakeUnique<Dict>(std::move(*s.d));
  s.d = std::move(d);
}
void dict_to_model(Settings& s) { s.m = std::make_unique<EmbeddedModel>(EmbeddedModel::Create(std::move(s.d))); }
bool dict_in_model(const Settings& s) { return s.m != nullptr; }
} // namespace api
