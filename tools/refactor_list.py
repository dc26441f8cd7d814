I = 'include/u5e/'
P = 'src/u5e/props/'
# groups of edits that keep the behaviour; every check has to stay quiet on each
GROUPS = {}

GROUPS['A'] = [
 # helper extracted, loop rewritten
 (I + 'utf8_iterator.hpp', '''      bool ret = false;
      while (utf8_util::is_codepoint_continuation(*raw_iterator_)) {
        raw_iterator_--;
        ret = true;
      }
      return ret;''', '''      if (!utf8_util::is_codepoint_continuation(current_octet)) {
        return false;
      }
      do {
        --raw_iterator_;
      } while (utf8_util::is_codepoint_continuation(*raw_iterator_));
      return true;'''),
 (I + 'utf8_iterator.hpp', '''        unsigned char mask_first_octet = size < 7 ? ~(0xFF<<(7-size)) : 0;
        unsigned int value = (first_octet & mask_first_octet);
        while (--size) {
          value = value<<6 | (*(++copy_) & 0b00111111);
        }
        return value;''', '''        unsigned int value = payload_of_first_octet(first_octet, size);
        for (difference_type i = 1; i < size; i++) {
          std::advance(copy_, 1);
          value <<= 6;
          value |= (unsigned char)*copy_ % 64;
        }
        return (int)value;'''),
 (I + 'utf8_iterator.hpp', '''    const codepoint current_codepoint() {''', '''    static unsigned int payload_of_first_octet(const char octet, int size) {
      switch (size) {
      case 2: return octet & 0x1F;
      case 3: return octet & 0x0F;
      case 4: return octet & 0x07;
      case 5: return octet & 0x03;
      case 6: return octet & 0x01;
      default: return 0;
      }
    }

    const codepoint current_codepoint() {'''),
 (I + 'utf8_util.hpp', 'return std::max(__builtin_clz(~(first_octet << 24)),1);', '''const unsigned char octet = first_octet;
      int size = 0;
      while (size < 8 && (octet & (0x80 >> size))) {
        size++;
      }
      return size ? size : 1;'''),
 (I + 'utf8_util.hpp', '''      if ((octet & 0b11000000) == 0b10000000) {
        return true;
      } else {
        return false;
      }''', '''      return ((unsigned char)octet >> 6) == 2;'''),
 (I + 'utf8_bounds.hpp', '''        int max_walkback = 8; // mathematically, it's impossible for
                              // something more than 8 elements away
                              // from the end to generate a overflow.
        int walkback = 0;
        while (walkback < max_walkback && end != begin) {
          --end; walkback++;
          char octet = *end;
          if (utf8_util::is_codepoint_start(octet)) {
            if (utf8_util::codepoint_size(octet) > walkback) {
              return false;
            }
          }
        }
        return true;''', '''        for (int walkback = 1; walkback <= 8; walkback++) {
          if (end == begin) {
            break;
          }
          if (overflows(*--end, walkback)) {
            return false;
          }
        }
        return true;'''),
 (I + 'utf8_bounds.hpp', '''    static bool check(''', '''    static bool overflows(const char octet, int walkback) {
      return utf8_util::is_codepoint_start(octet) && walkback < utf8_util::codepoint_size(octet);
    }

    static bool check('''),
 (I + 'filter.hpp', '''    while (input_from != input_to) {
      counter += operation(*input_from, output);
      input_from++;
    }
    return counter;''', '''    for (; input_from != input_to; ++input_from) {
      const int produced = operation(*input_from, output);
      counter = counter + produced;
    }
    return counter;'''),
 (I + 'basic_grapheme_iterator.hpp', '''      codepoint a = *end_of_grapheme_;
      end_of_grapheme_++;

      while (1) {
        // GB2
        if (end_of_grapheme_ == end_)
          return;
        codepoint b = *end_of_grapheme_;

        if (is_grapheme_boundary(a, b)) {
          return;
        }

        a = b;
        end_of_grapheme_++;
      }''', '''      codepoint a = *end_of_grapheme_;
      for (++end_of_grapheme_; end_of_grapheme_ != end_; ++end_of_grapheme_) {
        const codepoint b = *end_of_grapheme_;
        if (is_grapheme_boundary(a, b)) {
          break;
        }
        a = b;
      }'''),
 (I + 'basic_grapheme_iterator.hpp', '''      if (where_ == other) {
        return true;
      } else {
        for (const_codepoint_iterator copy = where_;
             copy != end_of_grapheme_; copy++) {
          if (copy == other) {
            return true;
          }
        }
        return false;
      }''', '''      const_codepoint_iterator copy = where_;
      do {
        if (copy == other) {
          return true;
        }
        if (copy == end_of_grapheme_) {
          return false;
        }
        ++copy;
      } while (copy != end_of_grapheme_);
      return false;'''),
 (I + 'codepoint_decomposition.hpp', '''      while (*end != 0) {
        end++;
        count++;
      }''', '''      for (; mapping[count]; count++) {}
      end = begin + count;'''),
 (I + 'canonical_combining_order.hpp', '''    return
      props::canonical_combining_class::resolve(a)
      <
      props::canonical_combining_class::resolve(b);''', '''    const int cb = props::canonical_combining_class::resolve(b);
    const int ca = props::canonical_combining_class::resolve(a);
    return cb > ca;'''),
 (P + 'canonical_combining_class.cpp', '''      int const * const * elem =
        (int const * const * const)
        bsearch((const void*)&input, (const void*)data.begin(),
                data.size(), sizeof(data_t::value_type),
                compare_value_to_row);
      if (elem == NULL) {
        return 0;
      } else {
        int const * it = *elem;
        return it[1]; // first element in array is codepoint itself
      }''', '''      // nothing below U+0300 is a combining mark
      if (input < 0x300) {
        return 0;
      }
      const void* elem =
        bsearch(&input, data.begin(),
                data.size(), sizeof(data_t::value_type),
                compare_value_to_row);
      return elem ? (*(int const * const *)elem)[1] : 0;'''),
 (P + 'grapheme_cluster_break.cpp', '''  if (elem) {
    return elem->value;
  } else {
    return grapheme_cluster_break::prop_value_type::OTHER;
  }''', '''  return elem ? elem->value : OTHER;'''),
 (P + 'grapheme_cluster_break.cpp', 'static range_data ranges[]', 'static const range_data ranges[]'),
 (I + 'normalization_form_kc.hpp', 'return count - compositions;', '''count -= compositions;
    return count;'''),
 (I + 'basic_encodedstring.hpp', '''      if (first == last) {
        return *this;
      }
      native_string.append
        (Encoding::template native_const_iterator<StorageType>(first),
         Encoding::template native_const_end<StorageType>(last)
         );
      return *this;''', '''      if (first != last) {
        auto from = Encoding::template native_const_iterator<StorageType>(first);
        auto to = Encoding::template native_const_end<StorageType>(last);
        native_string.append(from, to);
      }
      return *this;'''),
]

GROUPS['B'] = [
 # the rules as a table
 (I + 'basic_grapheme_iterator.hpp', ('''      g_c_b_vt va = props::grapheme_cluster_break::resolve(a);''', '''        return true;
      }
    }
    
'''), '''      // GB3 to GB13, one row for the class before, one bit for the class after
      static const unsigned rows[18] = { @ROWS@ };
      g_c_b_vt va = props::grapheme_cluster_break::resolve(a);
      g_c_b_vt vb = props::grapheme_cluster_break::resolve(b);
      return (rows[va] >> vb) & 1;
    }

'''),
 # searches over plain arrays with the standard algorithms
 (P + 'canonical_combining_class.cpp', ('''static data_t 
data''', '''namespace u5e {'''), '''struct row { int codepoint, value; };
static const row data[] =
  {
#include "canonical_combining_class_data.hpp"
  };

namespace u5e {'''),
 (P + 'canonical_combining_class.cpp', ('''      int const * const * elem =''', '''    }
  }
}'''), '''      const row* const last = std::end(data);
      const row* at = std::lower_bound(std::begin(data), last, input,
                                       [](const row& r, int v) { return r.codepoint < v; });
      return at != last && at->codepoint == input ? at->value : 0;
    }
  }
}'''),
 (P + 'canonical_combining_class.cpp', '#include <array>', '#include <array>\n#include <algorithm>'),
 (P + 'canonical_decomposition_mapping.cpp', ('''      int const * const * elem =''', '''    }
  }
}'''), '''      size_t low = 0, high = data.size();
      while (low < high) {
        const size_t mid = low + (high - low) / 2;
        int const * const r = data.begin()[mid].begin();
        if (*r == input) {
          return r + 1;
        } else if (*r < input) {
          low = mid + 1;
        } else {
          high = mid;
        }
      }
      return NULL;
    }
  }
}'''),
 (P + 'canonical_decomposition_mapping.cpp', ('static int compare_value_to_row', 'namespace u5e {'), 'namespace u5e {'),
 (P + 'canonical_composition_mapping.cpp', '''  if (key[0] < elem[0]) {
    return -1;
  } else if (key[0] > elem[0]) {
    return 1;
  } else {
    if (key[1] < elem[1]) {
      return -1;
    } else if (key[1] > elem[1]) {
      return 1;
    } else {
      return 0;
    }
  }''', '''  for (int i = 0; i < 2; i++) {
    if (key[i] != elem[i]) {
      return key[i] < elem[i] ? -1 : 1;
    }
  }
  return 0;'''),
 (P + 'grapheme_cluster_break.cpp', ('''  range_data key = {''', '''OTHER;
  }
};
'''), '''  size_t low = 0, high = countof(ranges);
  while (low != high) {
    const size_t mid = (low + high) / 2;
    const range_data& r = ranges[mid];
    if (c.value > r.range_end.value) {
      low = mid + 1;
    } else if (c.value < r.range_start.value) {
      high = mid;
    } else {
      return r.value;
    }
  }
  return prop_value_type::OTHER;
};
'''),
 (P + 'grapheme_cluster_break.cpp', ('static int compare_value_to_range', 'template <typename T'), 'template <typename T'),
 # one function behind the four forms
 (I + 'normalization_form_d.hpp', ('    // first step is', '''    return count;
'''), '''    utf32ne_string decomposed;
    int count = 0;
    for (typename basic_grapheme<InputStorageType>::const_codepoint_iterator i = grapheme.codepoint_begin();
         i != grapheme.codepoint_end(); i++) {
      count += canonical_decomposition(*i, decomposed);
    }
    canonical_combining_sort(decomposed);
    output.template append_from_utf32ne<utf32ne_string>
      (decomposed.codepoint_cbegin(), decomposed.codepoint_cend());
    return count;
'''),
 (I + 'normalization_form_c.hpp', ('    // first step is', '''    return count - compositions;
'''), '''    // form D composed
    utf32ne_string decomposed;
    int count = normalization_form_d(grapheme, decomposed);
    int compositions = 0;
    utf32ne_string::iterator last = u5e::canonical_composition(decomposed, &compositions);
    decomposed.native_string.erase(last, decomposed.native_string.end());
    output.template append_from_utf32ne<utf32ne_string>
      (decomposed.codepoint_begin(), decomposed.codepoint_end());
    return decomposed.native_string.size();
'''),
 (I + 'normalization_form_c.hpp', '#include <u5e/canonical_composition.hpp>', '#include <u5e/canonical_composition.hpp>\n#include <u5e/normalization_form_d.hpp>'),
 (I + 'normalization_form_c.hpp', 'int count = normalization_form_d(', 'normalization_form_d('),
 (I + 'utf8_iterator.hpp', '''        int size = utf8_util::encoded_size(value);
        if (size <= 1) {''', '''        int size = utf8_util::encoded_size(value);
        if (value >= 0 && value < 128) {'''),
 (I + 'utf8_util.hpp', '''      const unsigned int v = value;
      if (v < 0x80) {
        return 1;
      } else if (v < 0x800) {
        return 2;
      } else if (v < 0x10000) {
        return 3;
      } else if (v < 0x200000) {
        return 4;
      } else if (v < 0x4000000) {
        return 5;
      } else {
        return 6;
      }''', '''      static const unsigned int limits[] = { 0x80, 0x800, 0x10000, 0x200000, 0x4000000 };
      int size = 1;
      for (unsigned int limit : limits) {
        if ((unsigned int)value >= limit) {
          size++;
        }
      }
      return size;'''),
 (I + 'utf8_bounds.hpp', ('''      int max_walkback = 8; // mathematically, it's impossible for
                            // something''', '''      return ret;
    }
'''), '''      NativeIterator at = end;
      for (int walkback = 1; walkback <= 8 && at != begin; ++walkback) {
        --at;
        const bool overflow = utf8_util::is_codepoint_start(*at) &&
          utf8_util::codepoint_size(*at) > walkback;
        if (overflow) {
          *at = '?';
          ret = false;
        }
      }
      return ret;
    }
'''),
 (I + 'utf8.hpp', '''        char buf[6] = {}; // utf8 codepoint is never bigger than 6 chars
        utf8_iterator<char*> o_begin(buf);
        utf8_iterator<char*> o_i = o_begin;
''', '''        std::array<char, 8> buf;
        buf.fill(0);
        utf8_iterator<char*> o_begin(buf.data());
        utf8_iterator<char*> o_i(o_begin);
'''),
 (I + 'utf8.hpp', '#include <cstring>', '#include <cstring>\n#include <array>'),
]

GROUPS['C'] = [
 # one search for all tables, in a header of its own
 (P + 'search.hpp', '', '''#ifndef INCLUDED_U5E_PROPS_SEARCH
#define INCLUDED_U5E_PROPS_SEARCH

#include <cstddef>

namespace u5e {
  namespace props {
    namespace detail {
      template <int Keys, typename Table>
      const int* find_row(const Table& table, const int* key) {
        std::size_t first = 0;
        std::size_t count = table.size();
        while (count > 0) {
          const std::size_t half = count / 2;
          const int* row = (table.begin() + first + half)->begin();
          int order = 0;
          for (int i = 0; i < Keys && order == 0; ++i) {
            order = (row[i] < key[i]) - (row[i] > key[i]);
          }
          if (order == 0) {
            return row;
          }
          if (order > 0) {
            first += half + 1;
            count -= half + 1;
          } else {
            count = half;
          }
        }
        return nullptr;
      }
    }
  }
}

#endif
'''),
 (P + 'canonical_composition_mapping.cpp', '#include <cstdint>', '#include <cstdint>\n#include "search.hpp"'),
 (P + 'canonical_composition_mapping.cpp', ('static int compare_value_to_row', 'namespace u5e {'), 'namespace u5e {'),
 (P + 'canonical_composition_mapping.cpp', ('''      int const * const * elem =''', '''compare_value_to_row);
'''), '''      const int* elem = detail::find_row<2>(data, input);
'''),
 (P + 'canonical_composition_mapping.cpp', '        int const * it = *elem;\n        *r_composed = it[2];', '        *r_composed = elem[2];'),
 (P + 'compatibility_and_canonical_decomposition_mapping.cpp', '#include <cstdint>', '#include <cstdint>\n#include "search.hpp"'),
 (P + 'compatibility_and_canonical_decomposition_mapping.cpp', ('static int compare_value_to_row', 'namespace u5e {'), 'namespace u5e {'),
 (P + 'compatibility_and_canonical_decomposition_mapping.cpp', ('''      int const * const * elem =''', '''    }
  }
}'''), '''      const int* elem = detail::find_row<1>(data, &input);
      return elem ? elem + 1 : nullptr;
    }
  }
}'''),
 (I + 'utf8_iterator.hpp', ('        int value = c.value; // operate on', '''        return *this;
      }
    };'''), '''        const unsigned int v = c.value;
        int more = utf8_util::encoded_size(c.value) - 1;
        if (more == 0) {
          *(ref.raw_iterator_) = (char)v;
          return *this;
        }
        // as many bits as octets, and a zero
        const unsigned int announce = 0xFF00u >> (more + 1);
        *(ref.raw_iterator_) = (char)((announce | (v >> (6 * more))) & 0xFF);
        for (; more > 0; more--) {
          *(++ref.raw_iterator_) = (char)(0x80 | (v >> (6 * (more - 1)) & 0x3F));
        }
        return *this;
      }
    };'''),
 (I + 'utf8.hpp', ('        codepoint c = *first;', '        ++first;'), '''        append_one((unsigned int)(codepoint(*first).value), output);
        ++first;'''),
 (I + 'utf8.hpp', '''    template <typename InputNativeIterator, typename OutputNativeString>
    static void append_from_utf32ne''', '''    template <typename OutputNativeString>
    static void append_one(unsigned int v, OutputNativeString& output) {
      if (v < 0x80) {
        output.push_back((char)v);
      } else {
        const int size = utf8_util::encoded_size(v);
        output.push_back((char)((0xFF00u >> size) | (v >> (6 * (size - 1)))));
        for (int shift = 6 * (size - 2); shift >= 0; shift -= 6) {
          output.push_back((char)(0x80 | ((v >> shift) & 0x3F)));
        }
      }
    }

    template <typename InputNativeIterator, typename OutputNativeString>
    static void append_from_utf32ne'''),
 (I + 'utf32ne.hpp', 'output.append(first, last);', '''output.reserve(output.size() + std::distance(first, last));
      for (; first != last; ++first) {
        output.push_back(*first);
      }'''),
 # insertion sort by class
 (I + 'canonical_combining_order.hpp', ('    typename StorageType::iterator in(data', '''        in++;
      }
    }
  }'''), '''    typedef typename StorageType::iterator It;
    const It begin(data.codepoint_begin());
    const It end(data.codepoint_end());
    for (It i = begin; i != end; ++i) {
      const int c = *i;
      const int k = props::canonical_combining_class::resolve(c);
      if (k == 0) {
        continue;
      }
      It j = i;
      while (j != begin) {
        It before = j;
        --before;
        if (props::canonical_combining_class::resolve(*before) <= k) {
          break;
        }
        *j = *before;
        j = before;
      }
      *j = c;
    }
  }'''),
 # composition with indices and the class of the previous codepoint
 (I + 'canonical_composition.hpp', ('    typename StorageType::iterator oi(data', '''    return oi;'''), '''    typedef typename StorageType::iterator It;
    const It begin(data.codepoint_begin());
    const long n = data.codepoint_end() - begin;
    long out = 0;
    long starter = -1;
    int previous = -1;
    for (long i = 0; i < n; ++i) {
      const int c = begin[i];
      const int k = props::canonical_combining_class::resolve(c);
      int composed = 0;
      if (starter >= 0 && previous < k &&
          props::canonical_composition_mapping::resolve(begin[starter], c, &composed)) {
        begin[starter] = composed;
        ++*count;
        continue;
      }
      if (k == 0) {
        starter = out;
        previous = -1;
      } else {
        previous = k;
      }
      begin[out] = c;
      ++out;
    }
    return begin + out;'''),
 (I + 'codepoint_decomposition.hpp', ('    int const * mapping = resolver', '''    return count;
'''), '''    utf32ne_string decomposed;
    const int c = input.value;
    if (c >= 0xAC00 && c < 0xAC00 + 19 * 21 * 28) {
      const int l = (c - 0xAC00) / 28 / 21, v = (c - 0xAC00) / 28 % 21, t = (c - 0xAC00) % 28;
      decomposed.native_string.push_back(0x1100 + l);
      decomposed.native_string.push_back(0x1161 + v);
      if (t != 0) {
        decomposed.native_string.push_back(0x11A7 + t);
      }
    } else {
      int const * mapping = resolver(c);
      if (mapping) {
        while (*mapping) {
          decomposed.native_string.push_back(*mapping++);
        }
      } else {
        decomposed.native_string.push_back(c);
      }
    }
    const utf32ne_string_view whole(std::experimental::basic_string_view<int>
      (decomposed.native_string.data(), decomposed.native_string.size()));
    utf32ne_string_view copy(whole);
    output.template append<utf32ne_string_view>
      (copy.codepoint_cbegin(), copy.codepoint_cend());
    return decomposed.native_string.size();
'''),
 (I + 'codepoint_decomposition.hpp', '#include <u5e/utf32ne_string_view.hpp>', '#include <u5e/utf32ne_string_view.hpp>\n#include <u5e/utf32ne_string.hpp>'),
 # the boundary rules as a switch
 (I + 'basic_grapheme_iterator.hpp', ('''      g_c_b_vt va = props::grapheme_cluster_break::resolve(a);''', '''        return true;
      }
    }
    
'''), '''      const g_c_b_vt va = props::grapheme_cluster_break::resolve(a);
      const g_c_b_vt vb = props::grapheme_cluster_break::resolve(b);
      switch (vb) {
      case g_c_b_vt::CR:
      case g_c_b_vt::CONTROL:
        return true;
      case g_c_b_vt::LF:
        return va != g_c_b_vt::CR;
      default:
        break;
      }
      switch (va) {
      case g_c_b_vt::CR: case g_c_b_vt::LF: case g_c_b_vt::CONTROL:
        return true;
      case g_c_b_vt::PREPEND:
        return false;
      default:
        break;
      }
      if (vb == g_c_b_vt::EXTEND || vb == g_c_b_vt::ZWJ || vb == g_c_b_vt::SPACINGMARK) {
        return false;
      }
      switch (va) {
      case g_c_b_vt::L:
        return !(vb == g_c_b_vt::L || vb == g_c_b_vt::V || vb == g_c_b_vt::LV || vb == g_c_b_vt::LVT);
      case g_c_b_vt::LV: case g_c_b_vt::V:
        return !(vb == g_c_b_vt::V || vb == g_c_b_vt::T);
      case g_c_b_vt::LVT: case g_c_b_vt::T:
        return vb != g_c_b_vt::T;
      case g_c_b_vt::E_BASE: case g_c_b_vt::E_BASE_GAZ: case g_c_b_vt::EXTEND:
        return vb != g_c_b_vt::E_MODIFIER;
      case g_c_b_vt::ZWJ:
        return !(vb == g_c_b_vt::GLUE_AFTER_ZWJ || vb == g_c_b_vt::E_BASE_GAZ);
      case g_c_b_vt::REGIONAL_INDICATOR:
        return vb != g_c_b_vt::REGIONAL_INDICATOR;
      default:
        return true;
      }
    }

'''),
]

GROUPS['D'] = [
 # state that changes nothing, statements that do nothing, other shapes
 (P + 'canonical_combining_class.cpp', '''    int canonical_combining_class::resolve(int input) {
      int const * const * elem =''', '''    int canonical_combining_class::resolve(int input) {
      // text is full of repetitions
      static thread_local int last_input = -1, last_class = 0;
      if (input == last_input) {
        return last_class;
      }
      last_input = input;
      last_class = 0;
      int const * const * elem ='''),
 (P + 'canonical_combining_class.cpp', '        return it[1]; // first', '        return last_class = it[1]; // first'),
 (P + 'grapheme_cluster_break.cpp', '''  range_data key = {c, c, prop_value_type::OTHER};
''', '''  static const codepoint first_assigned = ranges[0].range_start;
  static const codepoint last_assigned = ranges[countof(ranges) - 1].range_end;
  if (c < first_assigned || !(c <= last_assigned)) {
    return OTHER;
  }
  range_data key = {c, c, prop_value_type::OTHER};
'''),
 (I + 'normalization_form_d.hpp', '''    utf32ne_string decomposed;
''', '''    static thread_local utf32ne_string decomposed;
    decomposed.native_string.clear();
'''),
 (I + 'normalization_form_kd.hpp', '''    utf32ne_string decomposed;
''', '''    utf32ne_string decomposed;
    decomposed.native_string.reserve(32);
'''),
 (I + 'utf8_bounds.hpp', '''      bool ret = true;
''', '''      bool ret = true;
      volatile int nothing = 0;
      (void)nothing;
      if (false) {
        return nothing;
      }
'''),
 (I + 'utf8_iterator.hpp', '''      if (this->is_after(rhs.raw_iterator_)) {
        return rhs == *this;
      }
''', '''      static_assert(sizeof(NativeIterator) > 0, "an object type");
      for (int nothing = 0; nothing < 3; ++nothing) { }
      if (this->is_after(rhs.raw_iterator_)) {
        return rhs.operator==(*this);
      }
'''),
 (I + 'utf8.hpp', '''      while (first != last) {
        codepoint c = *first;''', '''      for (; !(first == last); ++first) {
        const codepoint c(*first);'''),
 (I + 'utf8.hpp', '''        output.append(o_begin.raw_iterator_, o_i.raw_iterator_);
        ++first;
''', '''        output.insert(output.end(), o_begin.raw_iterator_, o_i.raw_iterator_);
'''),
 (I + 'basic_grapheme_iterator.hpp', '''      if (end_of_grapheme_ == end_)
        return;
      // advance end''', '''      bool done = end_of_grapheme_ == end_;
      if (done)
        return;
      // advance end'''),
 (I + 'basic_grapheme_iterator.hpp', '''    bool operator!=(basic_grapheme_iterator other) {
      return !(*this == other);''', '''    bool operator!=(basic_grapheme_iterator other) {
      return *this == other ? false : true;'''),
 (I + 'codepoint_decomposition.hpp', '''    int hangul[3];
''', '''    int hangul[4] = { 0, 0, 0, 0 };
    assert(input.value == codepoint(input).value);
'''),
 (I + 'codepoint_decomposition.hpp', '#include <algorithm>', '#include <algorithm>\n#include <cassert>'),
 (I + 'codepoint_decomposition.hpp', '''      begin = mapping;
      end = begin;
      while (*end != 0) {
        end++;
        count++;
      }
''', '''      begin = mapping;
      end = mapping + std::char_traits<int>::length(mapping);
      count = end - begin;
'''),
 (I + 'filter.hpp', 'int counter = 0;', 'int counter = 0; // number of codepoints in the output\n    std::string unused("nothing");\n    unused.clear();'),
 (I + 'filter.hpp', 'namespace u5e {', '#include <string>\n\nnamespace u5e {'),
]

GROUPS['E'] = [
 # shared steps moved to a header of their own; members const, defaulted, static; indexes for iterators
 (I + 'grapheme_boundary.hpp', '', '''#ifndef INCLUDED_U5E_GRAPHEME_BOUNDARY
#define INCLUDED_U5E_GRAPHEME_BOUNDARY

#include <u5e/codepoint.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>

namespace u5e {
  namespace detail {
    typedef props::grapheme_cluster_break::prop_value_type break_class;

    inline bool is_control(const break_class v) {
      return v == break_class::CR || v == break_class::LF || v == break_class::CONTROL;
    }

    inline bool one_of(const break_class) { return false; }
    template <typename... Rest>
    inline bool one_of(const break_class v, const break_class first, const Rest... rest) {
      return v == first || one_of(v, rest...);
    }

    inline bool hangul_continues(const break_class a, const break_class b) {
      typedef break_class t;
      if (a == t::L) return one_of(b, t::L, t::V, t::LV, t::LVT);
      if (one_of(a, t::LV, t::V)) return one_of(b, t::V, t::T);
      if (one_of(a, t::LVT, t::T)) return b == t::T;
      return false;
    }

    inline bool emoji_continues(const break_class a, const break_class b) {
      typedef break_class t;
      if (b == t::E_MODIFIER) return one_of(a, t::E_BASE, t::E_BASE_GAZ, t::EXTEND);
      if (a == t::ZWJ) return one_of(b, t::GLUE_AFTER_ZWJ, t::E_BASE_GAZ);
      return a == t::REGIONAL_INDICATOR && b == a;
    }

    inline bool breaks_between(const break_class a, const break_class b) {
      typedef break_class t;
      if (is_control(a) || is_control(b))
        return !(a == t::CR && b == t::LF);
      const bool joined = hangul_continues(a, b) || one_of(b, t::EXTEND, t::ZWJ, t::SPACINGMARK)
        || a == t::PREPEND || emoji_continues(a, b);
      return !joined;
    }
  }
}

#endif
'''),
 (I + 'basic_grapheme_iterator.hpp', '#include <u5e/props/grapheme_cluster_break.hpp>\n', '#include <u5e/grapheme_boundary.hpp>\n'),
 (I + 'basic_grapheme_iterator.hpp', ('''    bool is_grapheme_boundary(codepoint a, codepoint b) {
''', '''        return true;
      }
    }
    
'''), '''    static bool is_grapheme_boundary(const codepoint a, const codepoint b) {
      return detail::breaks_between(class_of(a), class_of(b));
    }

    static g_c_b_vt class_of(const codepoint c) {
      return props::grapheme_cluster_break::resolve(c);
    }

'''),
 # the class of a codepoint is looked up once
 (I + 'basic_grapheme_iterator.hpp', ('''      codepoint a = *end_of_grapheme_;
      end_of_grapheme_++;
''', '''        a = b;
        end_of_grapheme_++;
      }
'''), '''      g_c_b_vt before = class_of(*end_of_grapheme_);
      for (++end_of_grapheme_; !(end_of_grapheme_ == end_); ++end_of_grapheme_) {
        const g_c_b_vt here = class_of(*end_of_grapheme_);
        if (detail::breaks_between(before, here))
          break;
        before = here;
      }
'''),
 (I + 'basic_grapheme_iterator.hpp', ('''      while (where_ != begin_) {
        const_codepoint_iterator previous''', '''        where_ = previous;
      }
'''), '''      g_c_b_vt here = class_of(*where_);
      for (const_codepoint_iterator back(where_); back != begin_; where_ = back) {
        --back;
        const g_c_b_vt before = class_of(*back);
        if (detail::breaks_between(before, here))
          return;
        here = before;
      }
'''),
 (I + 'basic_grapheme_iterator.hpp', '''    basic_grapheme_iterator(const basic_grapheme_iterator& copy)
      :begin_(copy.begin_), end_(copy.end_),
       where_(copy.where_), end_of_grapheme_(copy.end_of_grapheme_) {}
''', '''    basic_grapheme_iterator(const basic_grapheme_iterator& copy) = default;
    basic_grapheme_iterator& operator=(const basic_grapheme_iterator& copy) = default;

    /**
     * is this position one of the current grapheme?
     */
    bool holds(const_codepoint_iterator other) const {
      const_codepoint_iterator copy(where_);
      bool found = copy == other;
      while (!found && copy != end_of_grapheme_) {
        found = copy == other;
        ++copy;
      }
      return found;
    }
'''),
 (I + 'basic_grapheme_iterator.hpp', ('''    bool operator==(const_codepoint_iterator other) {
''', '''        return false;
      }
    }
'''), '''    bool operator==(const_codepoint_iterator other) {
      return holds(other);
    }
'''),
 (I + 'basic_grapheme_iterator.hpp', '''        for (const_codepoint_iterator copy = where_;
             copy != end_of_grapheme_; copy++) {
          if (other == copy) {
            return true;
          }
        }
        return false;''', '''        const_codepoint_iterator copy = where_;
        while (copy != end_of_grapheme_ && !other.holds(copy))
          ++copy;
        return copy != end_of_grapheme_;'''),
 # decomposition and order in one place, composition in another
 (I + 'normalization_steps.hpp', '', '''#ifndef INCLUDED_U5E_NORMALIZATION_STEPS
#define INCLUDED_U5E_NORMALIZATION_STEPS

#include <u5e/basic_grapheme.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/filter.hpp>
#include <u5e/canonical_combining_order.hpp>
#include <u5e/canonical_composition.hpp>

namespace u5e {
  namespace detail {
    struct normalizing {
      utf32ne_string text;
      int size;

      template <typename Grapheme>
      normalizing(Grapheme& g, int (*decompose)(const codepoint, utf32ne_string&))
        : text(), size(filter(g.codepoint_begin(), g.codepoint_end(), text, decompose)) {
        canonical_combining_sort(text);
      }

      normalizing& compose() {
        int fewer = 0;
        utf32ne_string::iterator end = canonical_composition(text, &fewer);
        text.native_string.resize(end - text.codepoint_begin());
        size -= fewer;
        return *this;
      }

      template <typename Output>
      int write(Output& output) {
        output.template append_from_utf32ne<utf32ne_string>(text.codepoint_cbegin(), text.codepoint_cend());
        return size;
      }
    };
  }
}

#endif
'''),
]
def _form(f, decomposition, compose):
    h = I + 'normalization_form_%s.hpp' % f
    GROUPS['E'].append((h, '#include <u5e/filter.hpp>', '#include <u5e/normalization_steps.hpp>'))
    GROUPS['E'].append((h, ('    // first step is to decompose the grapheme\n', '    return count%s;\n' % (' - compositions' if compose else '')),
        '    detail::normalizing work(grapheme, %s<utf32ne_string>);\n    return work%s.write(output);\n' % (decomposition, '.compose()' if compose else '')))
for _f, _d, _c in (('d', 'canonical_decomposition', 0), ('c', 'canonical_decomposition', 1), ('kd', 'compatibility_and_canonical_decomposition', 0), ('kc', 'compatibility_and_canonical_decomposition', 1)): _form(_f, _d, _c)
GROUPS['E'] += [
 (I + 'canonical_combining_order.hpp', ('''    typename StorageType::iterator in(data.codepoint_begin());
''', '''        in++;
      }
    }
'''), '''    // insertion, from the left: runs are short
    typedef typename StorageType::iterator position;
    const position begin(data.codepoint_begin()), end(data.codepoint_end());
    for (position i = begin; i != end; ++i) {
      const int moving = *i;
      const int its_class = props::canonical_combining_class::resolve(moving);
      position to = i;
      if (its_class != 0) {
        for (; to != begin; --to) {
          if (props::canonical_combining_class::resolve(*(to - 1)) <= its_class)
            break;
          *to = *(to - 1);
        }
      }
      *to = moving;
    }
'''),
 (I + 'utf8_bounds.hpp', ('''        int max_walkback = 8; // mathematically, it's impossible for
''', '''        return true;
      }
'''), '''        for (int octets = 1; octets <= 8 && !(end == begin); ++octets) {
          if (overruns(*--end, octets))
            return false;
        }
        return true;
      }
'''),
 (I + 'utf8_bounds.hpp', ('''      int max_walkback = 8; // mathematically, it's impossible for
''', '''      return ret;
'''), '''      for (int octets = 1; octets <= 8 && !(end == begin); ++octets) {
        --end;
        if (!overruns(*end, octets))
          continue;
        *end = '?';
        ret = false;
      }
      return ret;
'''),
 (I + 'utf8_bounds.hpp', '''    /**
     * Check the bounds of''', '''    /**
     * Does the sequence started here need more octets than there are?
     */
    static bool overruns(const char octet, const int octets) {
      return utf8_util::is_codepoint_start(octet) &&
        utf8_util::codepoint_size(octet) > octets;
    }

    /**
     * Check the bounds of'''),
 (I + 'utf8_util.hpp', '''      if ((octet & 0b11000000) == 0b10000000) {
        return true;
      } else {
        return false;
      }''', '''      return static_cast<signed char>(octet) < -64;'''),
 (I + 'utf8_util.hpp', '''      return std::max(__builtin_clz(~(first_octet << 24)),1);''', '''      unsigned char rest = first_octet;
      int ones = 0;
      while (rest & 0x80) {
        rest <<= 1;
        ++ones;
      }
      return ones ? ones : 1;'''),
 (I + 'basic_encodedstring.hpp', '''      native_string.append
        (Encoding::template native_const_iterator<StorageType>(first),
         Encoding::template native_const_end<StorageType>(last)
         );
      return *this;''', '''      auto&& from = Encoding::template native_const_iterator<StorageType>(first);
      auto&& to = Encoding::template native_const_end<StorageType>(last);
      native_string.insert(native_string.end(), from, to);
      return *this;'''),
 (I + 'basic_encodedstring.hpp', '''    inline basic_grapheme_iterator<basic_encodedstring> grapheme_begin() {
      basic_grapheme_iterator<basic_encodedstring> i(codepoint_cbegin(),
                                                     codepoint_cend());
      return i;''', '''    inline basic_grapheme_iterator<basic_encodedstring> grapheme_begin() {
      return { codepoint_cbegin(), codepoint_cend() };'''),
 (P + 'grapheme_cluster_break.cpp', ('''  range_data key = {c, c, prop_value_type::OTHER};
''', '''    return grapheme_cluster_break::prop_value_type::OTHER;
  }
'''), '''  const range_data* const last = ranges + countof(ranges);
  const range_data* const found = std::partition_point(static_cast<const range_data*>(ranges), last,
    [c](const range_data& r) { return r.range_end.value < c.value; });
  return found != last && found->range_start.value <= c.value ? found->value : prop_value_type::OTHER;
'''),
 (P + 'grapheme_cluster_break.cpp', '#include <u5e/props/grapheme_cluster_break.hpp>\n', '#include <algorithm>\n#include <u5e/props/grapheme_cluster_break.hpp>\n'),
 (P + 'canonical_composition_mapping.cpp', ('static int compare_value', '\n};\n'), ''),
 (P + 'grapheme_cluster_break.cpp', ('static int compare_value', '\n};\n'), ''),
 (P + 'canonical_composition_mapping.cpp', ('      int input[3] = ', '        return true;\n      }\n'), '''      const std::initializer_list<const int>* low = data.begin();
      size_t left = data.size();
      while (left) {
        const size_t half = left / 2;
        const int* row = low[half].begin();
        if (row[0] < a || (row[0] == a && row[1] < b)) {
          low += half + 1;
          left -= half + 1;
        } else {
          left = half;
        }
      }
      if (low == data.end() || low->begin()[0] != a || low->begin()[1] != b)
        return false;
      *r_composed = low->begin()[2];
      return true;
'''),
]
