#include "mc.hpp"
#include <bwsl/EnumString.hpp>
#include <memory>
#include <set>

// Enumerations of one to many enumerators, with names that are prefixes,
// suffixes, anagrams and case variants of each other.
namespace e1 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Single, (OnlyOne)) }
namespace e2 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Two, (A)(B)) }
namespace e3 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(System, (Linux)(Apple)(Windows)) }
namespace e4 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Prefixes, (ABA)(AB)(A)(BA)(AA)(B_A)) }
namespace e5 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Cases, (abc)(Abc)(ABC)(aBc)(ABc)) }
namespace e6 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(X, (_a)(a_)(_0)(a0)(a00)(a000)(__)) }
namespace e7 { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(LongNames, (a_very_long_enumerator_name_that_does_not_fit_a_small_string)(a_very_long_enumerator_name_that_does_not_fit_a_small_strinG)(a_very_long_enumerator_name_that_does_not_fit_a_small_string_)(short_one)) }
namespace e8 {
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Many, (v0)(v1)(v2)(v3)(v4)(v5)(v6)(v7)(v8)(v9)(v10)(v11)(v12)(v13)(v14)(v15)(v16)(v17)(v18)(v19)(v20)(v21)(v22)(v23)(v24)(v25)(v26)(v27)(v28)(v29)(v30)(v31)(v32)(v33)(v34)(v35)(v36)(v37)(v38)(v39)(v40)(v41)(v42)(v43)(v44)(v45)(v46)(v47)(v48)(v49)(v50)(v51)(v52)(v53)(v54)(v55)(v56)(v57)(v58)(v59)(v60)(v61)(v62)(v63)(v64)(v65)(v66)(v67)(v68)(v69)(v70)(v71)(v72)(v73)(v74)(v75)(v76)(v77)(v78)(v79)(v80)(v81)(v82)(v83)(v84)(v85)(v86)(v87)(v88)(v89)(v90)(v91)(v92)(v93)(v94)(v95)(v96)(v97)(v98)(v99))
}
namespace e9 {
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Most, (w00)(w01)(w02)(w03)(w04)(w05)(w06)(w07)(w08)(w09)(w0a)(w0b)(w0c)(w0d)(w0e)(w0f)(w10)(w11)(w12)(w13)(w14)(w15)(w16)(w17)(w18)(w19)(w1a)(w1b)(w1c)(w1d)(w1e)(w1f)(w20)(w21)(w22)(w23)(w24)(w25)(w26)(w27)(w28)(w29)(w2a)(w2b)(w2c)(w2d)(w2e)(w2f)(w30)(w31)(w32)(w33)(w34)(w35)(w36)(w37)(w38)(w39)(w3a)(w3b)(w3c)(w3d)(w3e)(w3f)(w40)(w41)(w42)(w43)(w44)(w45)(w46)(w47)(w48)(w49)(w4a)(w4b)(w4c)(w4d)(w4e)(w4f)(w50)(w51)(w52)(w53)(w54)(w55)(w56)(w57)(w58)(w59)(w5a)(w5b)(w5c)(w5d)(w5e)(w5f)(w60)(w61)(w62)(w63)(w64)(w65)(w66)(w67)(w68)(w69)(w6a)(w6b)(w6c)(w6d)(w6e)(w6f)(w70)(w71)(w72)(w73)(w74)(w75)(w76)(w77)(w78)(w79)(w7a)(w7b)(w7c)(w7d)(w7e)(w7f)(w80)(w81)(w82)(w83)(w84)(w85)(w86)(w87)(w88)(w89)(w8a)(w8b)(w8c)(w8d)(w8e)(w8f)(w90)(w91)(w92)(w93)(w94)(w95)(w96)(w97)(w98)(w99)(w9a)(w9b)(w9c)(w9d)(w9e)(w9f)(wa0)(wa1)(wa2)(wa3)(wa4)(wa5)(wa6)(wa7)(wa8)(wa9)(waa)(wab)(wac)(wad)(wae)(waf)(wb0)(wb1)(wb2)(wb3)(wb4)(wb5)(wb6)(wb7)(wb8)(wb9)(wba)(wbb)(wbc)(wbd)(wbe)(wbf)(wc0)(wc1)(wc2)(wc3)(wc4)(wc5)(wc6)(wc7)(wc8)(wc9)(wca)(wcb)(wcc)(wcd)(wce)(wcf)(wd0)(wd1)(wd2)(wd3)(wd4)(wd5)(wd6)(wd7)(wd8)(wd9)(wda)(wdb)(wdc)(wdd)(wde)(wdf)(we0)(we1)(we2)(we3)(we4)(we5)(we6)(we7)(we8)(we9)(wea)(web)(wec)(wed)(wee)(wef)(wf0)(wf1)(wf2)(wf3)(wf4)(wf5)(wf6)(wf7)(wf8)(wf9)(wfa)(wfb)(wfc)(wfd)(wfe)(wff))
}
// several in one scope, and one that is used like its own name
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(First, (red)(green)(blue))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Second, (Red)(Green)(Blue)(First_))

struct Enum
{
  std::string name;
  std::vector<std::string> names;
  int top; // largest value that is defined for the type
  std::function<int(int)> value; // of the i-th enumerator
  std::function<std::string(int)> tostring; // of a value
  /// value of the target after reading s into one that holds `old`; message or empty
  std::function<int(std::string const&, int, std::string&)> fromstring;
};

template<class E, class X>
static Enum
make(std::string name, std::vector<std::string> names, std::vector<E> values)
{
  int bits = 1;
  while ((1 << bits) < static_cast<int>(names.size())) {
    ++bits;
  }
  return { name, names, (1 << bits) - 1,
           [values](int i) { return static_cast<int>(values[static_cast<size_t>(i)]); },
           [](int v) { return ToString(static_cast<E>(v)); },
           [](std::string const& s, int old, std::string& message) {
             auto t = static_cast<E>(old);
             message.clear();
             std::exception_ptr kept;
             std::unique_ptr<X> copy;
             try {
               // (the string does not live as long as the exception)
               FromString(t, std::string(s));
             } catch (X const& x) {
               kept = std::current_exception();
               copy = std::make_unique<X>(x);
             } catch (std::exception const& x) {
               mc::fail("refused with another exception: ", x.what());
             }
             if (kept) {
               // other things happen in between
               std::vector<std::string> junk(20, std::string(s.size() + 60, '#'));
               try {
                 std::rethrow_exception(kept);
               } catch (std::exception const& x) {
                 message = x.what();
               }
               if (message != copy->what() || message != std::string(copy->what())) {
                 mc::fail("the message '", message, "' reads '", copy->what(), "' in a copy");
               }
             }
             return static_cast<int>(t);
           } };
}

static std::vector<Enum> const&
enums()
{
  static std::vector<Enum> const v = [] {
    std::vector<Enum> v;
    v.push_back(make<e1::Single, e1::EnumStringConversionFailed_Single>("Single", { "OnlyOne" }, { e1::OnlyOne }));
    v.push_back(make<e2::Two, e2::EnumStringConversionFailed_Two>("Two", { "A", "B" }, { e2::A, e2::B }));
    v.push_back(make<e3::System, e3::EnumStringConversionFailed_System>("System", { "Linux", "Apple", "Windows" }, { e3::Linux, e3::Apple, e3::Windows }));
    v.push_back(make<e4::Prefixes, e4::EnumStringConversionFailed_Prefixes>("Prefixes", { "ABA", "AB", "A", "BA", "AA", "B_A" }, { e4::ABA, e4::AB, e4::A, e4::BA, e4::AA, e4::B_A }));
    v.push_back(make<e5::Cases, e5::EnumStringConversionFailed_Cases>("Cases", { "abc", "Abc", "ABC", "aBc", "ABc" }, { e5::abc, e5::Abc, e5::ABC, e5::aBc, e5::ABc }));
    v.push_back(make<e6::X, e6::EnumStringConversionFailed_X>("X", { "_a", "a_", "_0", "a0", "a00", "a000", "__" }, { e6::_a, e6::a_, e6::_0, e6::a0, e6::a00, e6::a000, e6::__ }));
    std::string l = "a_very_long_enumerator_name_that_does_not_fit_a_small_strin";
    v.push_back(make<e7::LongNames, e7::EnumStringConversionFailed_LongNames>("LongNames", { l + "g", l + "G", l + "g_", "short_one" }, { e7::a_very_long_enumerator_name_that_does_not_fit_a_small_string, e7::a_very_long_enumerator_name_that_does_not_fit_a_small_strinG, e7::a_very_long_enumerator_name_that_does_not_fit_a_small_string_, e7::short_one }));
    std::vector<std::string> n;
    std::vector<e8::Many> m;
    for (int i = 0; i < 100; ++i) {
      n.push_back("v" + std::to_string(i));
      m.push_back(static_cast<e8::Many>(i));
    }
    m[0] = e8::v0;
    m[57] = e8::v57;
    m[99] = e8::v99;
    v.push_back(make<e8::Many, e8::EnumStringConversionFailed_Many>("Many", n, m));
    std::vector<std::string> n9;
    std::vector<e9::Most> m9;
    for (int i = 0; i < 256; ++i) {
      n9.push_back(std::string("w") + "0123456789abcdef"[i / 16] + "0123456789abcdef"[i % 16]);
      m9.push_back(static_cast<e9::Most>(i));
    }
    m9[0] = e9::w00;
    m9[127] = e9::w7f;
    m9[128] = e9::w80;
    m9[255] = e9::wff;
    v.push_back(make<e9::Most, e9::EnumStringConversionFailed_Most>("Most", n9, m9));
    v.push_back(make<First, EnumStringConversionFailed_First>("First", { "red", "green", "blue" }, { red, green, blue }));
    v.push_back(make<Second, EnumStringConversionFailed_Second>("Second", { "Red", "Green", "Blue", "First_" }, { Red, Green, Blue, First_ }));
    return v;
  }();
  return v;
}

static void
check_string(mc::Ctx& c, Enum const& e, std::string const& s, int old)
{
  std::string message;
  auto t = e.fromstring(s, old, message);
  auto it = std::find(e.names.begin(), e.names.end(), s);
  c.op(e.name, " from '", s, "'");
  if (it != e.names.end()) {
    MC_CHECK(c, message.empty(), e.name, ": '", s, "' is refused: ", message);
    MC_CHECK(c, t == it - e.names.begin(), e.name, ": '", s, "' reads as ", t);
  } else {
    MC_CHECK(c, !message.empty(), e.name, ": '", s, "' is accepted as ", t);
    MC_CHECK(c, t == old, e.name, ": '", s, "' is refused but changed the target from ", old, " to ", t);
    if (s.find('\0') == std::string::npos) { // (what() ends at the first zero byte)
      MC_CHECK(c, message.find(e.name) != std::string::npos, "'", message, "' does not name ", e.name);
      MC_CHECK(c, message.find(s) != std::string::npos, "'", message, "' does not contain '", s, "'");
    }
  }
  c.state(mc::H().add(e.name).add(s).add(old));
}

MC_FAMILY(enumerators, "every enumerator of eleven enumerations, and every value outside that the type can hold", 2)
{
  auto const& e = c.pick(enums());
  auto n = static_cast<int>(e.names.size());
  auto v = c.choose(e.top + 1);
  c.op(e.name, " value ", v);
  auto s = e.tostring(v);
  if (v < n) {
    MC_CHECK(c, e.value(v) == v, e.name, ": enumerator ", v, " has the value ", e.value(v));
    MC_CHECK(c, s == e.names[static_cast<size_t>(v)], e.name, ": enumerator ", v, " converts to '", s, "'");
    for (int old = 0; old <= e.top; ++old) {
      check_string(c, e, s, old);
    }
  } else {
    MC_CHECK(c, std::find(e.names.begin(), e.names.end(), s) == e.names.end(), e.name, ": value ", v, " converts to '", s, "'");
    auto low = s;
    for (auto& ch : low) {
      ch = static_cast<char>(std::tolower(ch));
    }
    MC_CHECK(c, low.find("unknown") != std::string::npos, e.name, ": value ", v, " converts to '", s, "'");
    check_string(c, e, s, v);
  }
  c.state(mc::H().add(e.name).add(v));
}

MC_FAMILY(similar, "every string one or two edits (deletion, insertion, replacement, change of case, exchange, repetition) from the name of an enumerator", 4)
{
  static std::string const letters(std::string("aAbBcvgG01_ .:{}%\n\t") + '\0' + '\x7f' + '\xff');
  auto const& e = c.pick(enums());
  auto i = c.choose(static_cast<int>(e.names.size()));
  auto s = e.names[static_cast<size_t>(i)];
  auto edits = s.size() > 8 || e.names.size() > 50 ? 1 : mc::bound(2, 1, 2, 2);
  for (int k = 0; k < edits; ++k) {
    auto n = static_cast<int>(s.size());
    switch (c.choose(6)) {
      case 0:
        if (n > 0) {
          s.erase(static_cast<size_t>(c.choose(n)), 1);
        }
        break;
      case 1: {
        auto at = c.choose(n + 1);
        s.insert(static_cast<size_t>(at), 1, letters[static_cast<size_t>(c.choose(static_cast<int>(letters.size())))]);
        break;
      }
      case 2:
        if (n > 0) {
          auto at = c.choose(n);
          s[static_cast<size_t>(at)] = letters[static_cast<size_t>(c.choose(static_cast<int>(letters.size())))];
        }
        break;
      case 3:
        if (n > 0) {
          auto& ch = s[static_cast<size_t>(c.choose(n))];
          ch = static_cast<char>(std::islower(static_cast<unsigned char>(ch)) != 0 ? std::toupper(ch) : std::tolower(ch));
        }
        break;
      case 4:
        if (n > 1) {
          auto at = static_cast<size_t>(c.choose(n - 1));
          std::swap(s[at], s[at + 1]);
        }
        break;
      default: s = c.flip() ? s + s : " " + s + " "; break;
    }
  }
  check_string(c, e, s, (i + 1) % (e.top + 1));
}

MC_FAMILY(all_strings, "all strings of up to six characters over the letters of the names", 4)
{
  static std::string const letters(std::string("AB_a ") + '\0');
  auto const& e = enums()[static_cast<size_t>(c.pick({ 1, 3 }))];
  auto n = c.choose(mc::bound(7, 6, 8, 7));
  std::string s;
  for (int i = 0; i < n; ++i) {
    s += letters[static_cast<size_t>(c.choose(static_cast<int>(letters.size())))];
  }
  check_string(c, e, s, 1);
}

MC_FAMILY(other_names, "names of the other enumerations, qualified names, numbers, texts of unknown values, very long strings", 2)
{
  auto const& e = c.pick(enums());
  auto const& f = c.pick(enums());
  for (auto const& n : f.names) {
    check_string(c, e, n, 0);
    check_string(c, e, e.name + "::" + n, 0);
    check_string(c, e, n + "," + n, 0);
  }
  check_string(c, e, f.name, 0);
  for (int i = -2; i < 12; ++i) {
    check_string(c, e, std::to_string(i), 0);
  }
  check_string(c, e, "", 0);
  for (size_t n : { 127, 128, 255, 256, 257, 500, 511, 512, 1023, 1024, 4096, 32768, 65535, 65536, 65537, 100000, 140000 }) {
    check_string(c, e, std::string(n, 'A'), 0);
    // (an enumerator followed by many characters)
    check_string(c, e, e.names[0] + std::string(n, e.names[0].back()), 0);
    check_string(c, e, e.names[0] + std::string(n - e.names[0].size() % n, ' ') + e.names[0], 0);
  }
  check_string(c, e, "[ Unknown " + e.name + " ]", 0);
  check_string(c, e, std::string(1, '\0'), 0);
}

// Several failures at once, each keeps its own message
MC_FAMILY(many_exceptions, "all orders of three failures whose exceptions are kept: every one keeps its own message", 3)
{
  static char const* const s[] = { "purple", "", "a string that is long enough not to fit inside of the object" };
  std::vector<std::unique_ptr<EnumStringConversionFailed_First>> k;
  std::vector<std::string> want;
  for (int i = 0; i < 3; ++i) {
    auto j = c.choose(3);
    First t = green;
    try {
      FromString(t, s[j]);
      mc::fail("accepted");
    } catch (EnumStringConversionFailed_First const& x) {
      k.push_back(std::make_unique<EnumStringConversionFailed_First>(x));
      want.emplace_back(s[j]);
    }
    Second u = Blue;
    try {
      FromString(u, "red");
      mc::fail("accepted");
    } catch (EnumStringConversionFailed_Second const& x) {
      MC_CHECK(c, std::string(x.what()).find("Second") != std::string::npos, "message '", x.what(), "'");
    }
    c.op("failure ", j);
    // what() of one object keeps its characters when another is asked
    std::vector<char const*> texts;
    for (auto const& x : k) {
      texts.push_back(x->what());
    }
    for (size_t q = 0; q < k.size(); ++q) {
      std::string m = texts[q];
      MC_CHECK(c, m.find(want[q]) != std::string::npos && m == k[q]->what(), "message '", m, "' of '", want[q], "'");
    }
    for (size_t q = 0; q < k.size(); ++q) {
      std::string m = k[q]->what();
      MC_CHECK(c, m.find(want[q]) != std::string::npos && m.find("First") != std::string::npos && m.find("Second") == std::string::npos, "message '", m, "' of '", want[q], "'");
    }
    if (c.flip() && k.size() > 1) {
      *k[0] = *k[1];
      want[0] = want[1];
    }
  }
  mc::H h;
  for (auto const& w : want) {
    h.add(w);
  }
  c.state(h);
}
