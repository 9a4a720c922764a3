from mkseed import seed
IC = "include/crab/integer_cast.hpp"
seed("C08-sub-boundary", "C08", [(IC, "		if (a < std::numeric_limits<T>::min() + b)\n			throw std::out_of_range(\"sub underflow\");", "		if (a <= std::numeric_limits<T>::min() + b)\n			throw std::out_of_range(\"sub underflow\");"),],
'''#include <functional>
#include <cstdint>
#include <limits>
#include <crab/integer_cast.hpp>
int main() { try { return crab::safe_sub<int64_t>(std::numeric_limits<int64_t>::min() + 7, 7) == std::numeric_limits<int64_t>::min() ? 0 : 1; } catch (const std::out_of_range &) { return 1; } }
''', "a - b exactly equal to the minimum of the type, with b > 0, through the throwing variant", "safe_sub reports overflow for a representable result")
seed("C08-add-wide", "C08", [(IC, "optional<T> safe_add_opt(T a, T b) {\n	if (b >= 0) {", "optional<T> safe_add_opt(T a, T b) {\n	if (sizeof(T) == 8 ? b > 1 : b >= 0) {")],
'''#include <functional>
#include <cstdint>
#include <limits>
#include <crab/integer_cast.hpp>
int main() { return crab::safe_add_opt<uint64_t>(std::numeric_limits<uint64_t>::max(), 1) ? 1 : 0; }
''', "a 64-bit type, b equal to 1 and a the maximum", "safe_add_opt returns a wrapped value instead of an empty optional")
seed("C07-sign-small", "C07", [(IC, "	// unsigned to signed\n	using UT = typename std::make_unsigned<T>::type;\n	if (arg > static_cast<UT>(std::numeric_limits<T>::max()))", "	// unsigned to signed\n	using UT = typename std::make_unsigned<T>::type;\n	if (sizeof(T) == sizeof(S) ? arg - 1 > static_cast<UT>(std::numeric_limits<T>::max()) && arg != 0 : arg > static_cast<UT>(std::numeric_limits<T>::max()))")],
'''#include <functional>
#include <cstdint>
#include <limits>
#include <crab/integer_cast.hpp>
int main() { try { crab::integer_cast<int64_t>(uint64_t(1) << 63); return 1; } catch (const std::out_of_range &) { return 0; } }
''', "unsigned source of the same width as the signed target, value exactly max()+1", "integer_cast returns a negative number instead of throwing")
