// Instantiates the logging facade, so that its templates are part of the program analysed.
#include <string>

#include <blackhole/attribute.hpp>
#include <blackhole/attributes.hpp>
#include <blackhole/extensions/facade.hpp>
#include <blackhole/extensions/writer.hpp>
#include <blackhole/logger.hpp>
#include <blackhole/message.hpp>
#include <blackhole/root.hpp>

namespace witness {

using namespace blackhole;

template<typename Logger>
void use(Logger& logger, const string_view& text, const std::string& value, const attribute_list& attributes) {
    logger_facade<Logger> log(logger);

    log.log(0, text);
    log.log(0, text, attributes);
    log.log(0, text, 42);
    log.log(0, text, 42, value, 3.1415);
    log.log(0, text, 42, attributes);
    log.log(0, text, 42, value, attributes);
}

template void use<logger_t>(logger_t&, const string_view&, const std::string&, const attribute_list&);
template void use<root_logger_t>(root_logger_t&, const string_view&, const std::string&, const attribute_list&);

void parsed(logger_t& logger) {
    constexpr auto pattern = detail::formatter<detail::literal_count("{} {}")>("{} {}");
    logger_facade<logger_t>(logger).log(0, pattern, 42, std::string("value"));
}

}  // namespace witness
