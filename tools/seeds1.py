SEEDS = []
def S(**k): SEEDS.append(k)
CK = '#include <cstdio>\n#include <cstring>\n#define REQ(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); return 1; } } while (0)\n'
S(id='timespan-sub-norm', prop='C09', needs='subtracting two spans whose sub-second parts add up to more than one second in the negative direction',
  breaks='the difference keeps more than one second in its sub-second part and compares unequal to the same value built directly',
  edits=[('icl_core/TimeSpan.cpp', """  nsecs -= span.nsecs;
  normalizeTime();
""", """  nsecs -= span.nsecs;
  if (secs >= 0 || nsecs > 0)
  {
    normalizeTime();
  }
""")],
  demo=CK + """#include <icl_core/TimeSpan.h>
using icl_core::TimeSpan;
int main() { TimeSpan a(-1, -900000000), b(1, 800000000); TimeSpan c = a; c -= b; REQ(c == TimeSpan(-3, -700000000)); return 0; }
""")
S(id='timestamp-le-order', prop='C09', needs='comparing two time values in the same second where the left one has fewer nanoseconds but more seconds is false; only equal-second pairs with <= are affected',
  breaks='<= disagrees with < for values which differ only in their sub-second part when both are negative',
  edits=[('icl_core/TimeBase.cpp', 'return (secs == other.secs) ? (nsecs <= other.nsecs) : (secs < other.secs);', 'return (secs == other.secs) ? (secs < 0 ? (nsecs >= other.nsecs) : (nsecs <= other.nsecs)) : (secs < other.secs);')],
  demo=CK + '''#include <icl_core/TimeSpan.h>
using icl_core::TimeSpan;
int main() { TimeSpan a(-3, -2), b(-3, -1); REQ(a < b); REQ(a <= b); REQ(!(b <= a)); return 0; }
''')
S(id='ring-skip-wrap', prop='C01', needs='skipping several elements at once when the read position is in the upper half and the skip ends exactly at the end of the storage',
  breaks='the read position is left one past the storage, so the next read returns the wrong element',
  edits=[('icl_core/RingBuffer.h', '''    // Skip elements that will not fit.
    old_read += old_size-new_size;
    if (old_read >= old_buffer.size())''', '''    // Skip elements that will not fit.
    old_read += old_size-new_size;
    if (old_read > old_buffer.size())''')],
  demo=CK + '''#include <icl_core/RingBuffer.h>
int main() { for (int cap = 1; cap < 6; ++cap) for (int rot = 0; rot <= cap; ++rot) for (int nc = 0; nc <= cap; ++nc) { icl_core::RingBuffer<int> r(cap); for (int i = 0; i < rot; ++i) { r.write(-1); r.read(); } for (int i = 0; i < cap; ++i) r.write(i); r.setCapacity(nc); REQ((int)r.size() == nc); for (int i = 0; i < nc; ++i) REQ(r.at(i) == cap - nc + i); } return 0; }
''')
S(id='ring-at-const', prop='C01', needs='const indexed access to an element stored in the wrapped part, with the sum of read position and index equal to the storage size',
  breaks='const at() reads one element past the storage instead of the first slot',
  edits=[('icl_core/RingBuffer.h', '''  const T& at(size_type pos) const
  {
    if (pos < size())
    {
      pos += m_read;
      if (pos >= m_buffer.size())''', '''  const T& at(size_type pos) const
  {
    if (pos < size())
    {
      pos += m_read;
      if (pos > m_buffer.size())''')],
  demo=CK + '''#include <icl_core/RingBuffer.h>
int main() { icl_core::RingBuffer<int> r(3); const icl_core::RingBuffer<int> &c = r; for (int i = 0; i < 3; ++i) { r.write(0); r.read(); } for (int i = 0; i < 3; ++i) r.write(10 + i); for (int i = 0; i < 3; ++i) { REQ(&c.at(i) == &r.at(i)); REQ(c.at(i) == 10 + i); } return 0; }
''')
S(id='seqnum-half', prop='C08', needs='two numbers across the wrap-around in an odd-sized range whose distance is just below half the range',
  breaks='ordering across the wrap-around fails for distances near half the range', edits=[('icl_core/SequenceNumber.h', '    return (*this) != other && !((*this) < other);', '    return other.m_value < m_value ? (m_value - other.m_value) <= max_value / 2 : !(*this <= other);')],
  demo=CK + '''#include <icl_core/SequenceNumber.h>
typedef icl_core::SequenceNumber<unsigned short, 110, 100> N;
int main() { N a(100), b(109); REQ((b > a) == (a < b)); for (int i = 100; i < 110; ++i) for (int j = 100; j < 110; ++j) { N x(i), y(j); REQ(!((x > y) && (x < y))); } return 0; }
''')
S(id='split-overlap', prop='C06', needs='a multi-character delimiter which overlaps itself in the text', breaks='after a delimiter only one character is removed, so parts contain delimiter remainders',
  edits=[('icl_core/StringHelper.cpp', 's.erase(0, pos+delimiter.size());', 's.erase(0, pos+(s[pos] == s[pos + delimiter.size() - 1] ? 1 : delimiter.size()));')],
  demo=CK + '''#include <icl_core/StringHelper.h>
int main() { std::vector<std::string> p = icl_core::split("x--y", "--"); REQ(p.size() == 2 && p[0] == "x" && p[1] == "y"); REQ(icl_core::join(icl_core::split("a, b", ", "), ", ") == "a, b"); return 0; }
''')
S(id='timespan-usec-sign', prop='C10', needs='a negative number of microseconds that is not a whole number of seconds', breaks='fromUSec drops the sign of the sub-second part for spans shorter than a second',
  edits=[('icl_core/TimeSpan.cpp', 'nsecs = int32_t((usec % 1000000) * 1000);', 'nsecs = int32_t((usec < 0 && secs == 0 ? -usec : usec % 1000000) * 1000);')],
  demo=CK + '''#include <icl_core/TimeSpan.h>
using icl_core::TimeSpan;
int main() { REQ(TimeSpan::createFromUSec(-250) == TimeSpan(0, -250000)); REQ(TimeSpan::createFromUSec(-1000250).toUSec() == -1000250); return 0; }
''')
