CONFIG = {
 "C01": dict(opts=dict(feas_ms=100, inc_ms=100), harness=dict(H_read_from=dict(inv=["rf"], houdini_ms=300, houdini2_ms=10000),
   H_read_enough=dict(inv=["rf"], houdini_ms=300, houdini2_ms=10000), H_write_to=dict(inv=["wt", "rf_valid"], houdini_ms=300, houdini2_ms=10000)),
   note="Buffer capacities and transfer sizes up to 2^40; any capacity within that."),
 "C02": dict(opts=dict(feas_ms=100, inv=["c_"], houdini_ms=300, houdini2_ms=10000), harness=dict(H_combined_write_to=dict(inv=["m_"])),
   note="Stream and transfer sizes up to 2^40. Sinks and sources are arbitrary: they accept or deliver any part of each call."),
 "C08": dict(),
 "C07": dict(opts=dict(fp=1), note="Integer sources of every width and float/double sources, all values; long double sources are not covered."),
 "C06": dict(thorough_only=["H_parse_ill", "H_parse_ull"], limit_s=470, opts=dict(houdini_ms=8000, fold_ahead=1, inc_ms=1000, no_it=["val", "le0", "ge0"])),
 "C09": dict(opts=dict(loops={"IntegerSaver": "unroll"}), cflags=["-std=gnu++14"],
   note="IntegerSaver cannot be instantiated in C++11 (std::max is not constexpr there), so it is verified as C++14."),
 "C10": dict(opts=dict(inv=["dec"], houdini_ms=10000, fold_ahead=4), harness=dict(
   H_encode=dict(inv=["enc"], houdini_ms=3000, houdini2_ms=40000, inc_ms=300, feas_ms=300, fold_ahead=0),
   H_encode_wrong_size=dict(inv=["enc"], fold_ahead=0)), limit_s=520),
 "C11": dict(opts=dict(fold_ahead=2), harness=dict(H_to_hex=dict(inv=["th_"]))),
 "C13": dict(),
 "C14": dict(opts=dict(houdini_ms=60000), harness=dict(H_crc32=dict(inv=["ieee"]), H_crc32c=dict(inv=["cast"])), limit_s=400),
 "C04": dict(opts=dict(feas_ms=200), note="One operation at a time from every ring; rings of four and more nodes are represented by the nodes the operation can reach."),
 "C15": dict(opts=dict(feas_ms=200, inc_ms=200, inv=["ad_"], replace={"crab::sha1::process_block(": "vcrep::process_block("}), harness=dict(H_block=dict(replace={}, rot=1)),
   note="One add is up to 2^60 bytes."),
 "C16": dict(opts=dict(feas_ms=200, inc_ms=200, inv=["ad_"], replace={"crab::md5::process_block(": "vcrep::process_block("}), harness=dict(H_block=dict(replace={}, rot=1)),
   note="One add is up to 2^60 bytes."),
 "C17": dict(opts=dict(loops={"parse": "unroll"})),
 "C18": dict(opts=dict(houdini_ms=20000, houdini2_ms=60000), limit_s=520),
 "C21": dict(opts=dict(feas_ms=100, inc_ms=100, replace={"crab::http::ResponseParser::process_ready_header()": "vcrep::ready(", "crab::http::trim_right(": "vcrep::trim_right("}), harness=dict(
   H_parse=dict(inv=["pp_"], replace={"crab::http::ResponseParser::consume(char)": "vcrep::consume("}), H_trim_right=dict(inv=["tr_"], replace={}),
   H_parse_buffer=dict(replace={"unsigned char const* crab::http::ResponseParser::parse<unsigned char const*>(": "vcrep::parse("})),
   note="Strings of any content up to 2^40 bytes; the limit is arbitrary."),
 "C22": dict(opts=dict(feas_ms=100, inc_ms=100), harness=dict(
   H_parse=dict(inv=["pp_"], replace={"crab::http::BodyParser::consume(unsigned char const*, unsigned char const*)": "vcrep::consume("}),
   H_parse_buffer=dict(replace={"crab::http::BodyParser::parse(unsigned char const*, unsigned char const*)": "vcrep::parse("})),
   note="Body and piece sizes up to 2^40; limits are arbitrary."),
 "C20": dict(opts=dict(feas_ms=100, inc_ms=100, replace={"crab::http::RequestParser::process_ready_header()": "vcrep::ready("}), harness=dict(
   H_parse=dict(inv=["pp_"], replace={"crab::http::RequestParser::consume(char)": "vcrep::consume("}),
   H_parse_buffer=dict(replace={"unsigned char const* crab::http::RequestParser::parse<unsigned char const*>(": "vcrep::parse("})),
   note="Strings of any content up to 2^40 bytes; the limit is arbitrary."),
 "C23": dict(opts=dict(feas_ms=100, inc_ms=100, replace={"crab::http::trim_right(": "vcrep::trim_right(", "crab::http::tolower(": "vcrep::tolower(", "crab::http::parse_content_type_value(": "vcrep::content_type(",
   "crab::http::parse_authorization_basic(": "vcrep::authorization(", "unsigned long crab::integer_cast<unsigned long, std::": "vcrep::cast(",
   "crab::operator==(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&, crab::string_view const&)": "vcrep::sv_eq("}),
   harness=dict(H_trim_right=dict(inv=["tr_"], replace={}), H_tolower=dict(inv=["lo_"], replace={}), H_literal_equal=dict(replace={}), H_authorization_value=dict(inv=["bl_"], replace={}),
   H_content_type_value=dict(inv=["bl_"], houdini_ms=12000, prove_ms=40000, replace={"crab::http::tolower(": "vcrep::tolower("}), H_is_websocket_upgrade=dict(replace={})), note=""),
 "C24": dict(opts=dict(loops={"parse": "unroll"}), harness=dict(H_parse=dict(loops={}, inv=["pp_"], replace={
   "crab::http::QueryParser::consume(char)": "vcrep::consume(", "crab::http::QueryParser::consume_end()": "vcrep::consume_end("}))),
 "C25": dict(opts=dict(loops={"parse": "unroll"}), harness=dict(H_parse=dict(loops={}, inv=["pp_"], replace={
   "crab::http::CookieParser::consume(char)": "vcrep::consume(", "crab::http::CookieParser::consume_end()": "vcrep::consume_end("}))),
 "C26": dict(opts=dict(loops={"parse": "unroll"}, replace={"crab::http::url_decode(": "vcrep::url_decode("}), harness=dict(H_parse=dict(loops={}, inv=["pp_"], replace={
   "crab::http::URIParser::consume(char)": "vcrep::consume(", "crab::http::URIParser::consume_end()": "vcrep::consume_end("})),
   note="Per character from every parser state with arbitrary strings; the number of already stored path segments is bounded by 2 (the code only touches the last)."),
 "C12": dict(opts=dict(loops={"parse": "unroll", "url_encode": "unroll"}), harness=dict(H_encode=dict(loops={}, inv=["en_"]), H_encode_path=dict(loops={}, inv=["en_"]), H_decode=dict(loops={}, inv=["de_"], fold_ahead=3, houdini_ms=1000, houdini2_ms=20000, feas_ms=100, inc_ms=100)),
   note="The step from one byte to whole strings (concatenation of encoded bytes) is the induction over the input that the encoder's position function and the decoder automaton share; it is not machine-checked as one lemma."),
 "C19": dict(opts=dict(loops={"parse": "unroll", "OStream::write": "unroll"}, replace={"crab::http::WebMessageHeaderParser::mask_data(": "vcrep::mask_data("}),
   note="Body and piece sizes up to 2^40."),
 "C31": dict(opts=dict(houdini_ms=10000), harness=dict(
   H_bytes=dict(inv=["st_","shape","mul4","done","rest","guards"]), H_data=dict(inv=["st_","shape","mul4","ldone","rest"]),
   H_printable=dict(inv=["letters","str_size"]), H_dbl=dict(fp=1)),
   note="Random() (random_device seeding) is outside: only the seeded generator is specified."),
}
NOT_APPLICABLE = {
 "C27": "the serialisers format through std::stringstream (locale, virtual buffers), which the verifier has no contract for, and the round trip would need one induction over serialiser output and parser automaton together; the parsing half is decided by C20, C21, C23",
 "C32": "parsing and printing are done by inet_pton/inet_ntop outside the repository; what is left in crab is byte copying between sockaddr structures, so a contract would only restate an assumption on libc",
 "C33": "callback lifetime across epoll, threads and user handlers: the property quantifies over event-loop histories through std::function callbacks and system calls; no contract within reach of the verifier expresses it",
 "C34": "needs a concurrency semantics (mutexes, threads, eventfd) which the sequential contract verifier does not have",
 "C35": "liveness/fairness; contracts here prove partial correctness only",
}
CONFIG["C28"] = dict(opts=dict(feas_ms=200,  replace={
    "crab::BufferedTCPSocket::write(unsigned char const*, unsigned long, crab::BufferOptions)": "vcrep::sock_write(",
    "crab::BufferedTCPSocket::write(std::": "vcrep::sock_write_s(",
    "crab::BufferedTCPSocket::buffer(unsigned char const*, unsigned long)": "vcrep::sock_buffer(",
    "crab::BufferedTCPSocket::buffer(std::": "vcrep::sock_buffer_s(",
    "crab::BufferedTCPSocket::write_shutdown()": "vcrep::sock_shutdown(", "crab::BufferedTCPSocket::is_open() const": "vcrep::sock_open(",
    "crab::http::Server::get_date": "vcrep::date", "crab::Timer::once(double)": "vcrep::timer_once(", "crab::Timer::cancel()": "vcrep::timer_cancel(",
    "crab::http::RequestParser::RequestParser()": "vcrep::parser_ctor(", "crab::http::RequestParser::~RequestParser()": "vcrep::parser_dtor(", "crab::http::RequestParser::operator=(crab::http::RequestParser&&)": "vcrep::parser_assign(",
    "crab::http::ResponseHeader::to_string[abi:cxx11]() const": "vcrep::head_text", "sprintf": "vcrep::sprintf_hex("}), native_replace=True,
    note="The socket is replaced by its contract (C29); the text of the header by C27.")
CONFIG["C28"]["harness"] = dict(H_response=dict(replace=dict(CONFIG["C28"]["opts"]["replace"], **{"crab::http::ServerConnection::write(std::": "vcrep::body_write("})))
CONFIG["C29"] = dict( opts=dict(feas_ms=200, inv=["wr_"], replace={
    "std::deque<crab::StringStream, std::allocator<crab::StringStream>>::empty() const": "vcrep::dq_empty(",
    "std::deque<crab::StringStream, std::allocator<crab::StringStream>>::front()": "vcrep::dq_front(",
    "std::deque<crab::StringStream, std::allocator<crab::StringStream>>::back()": "vcrep::dq_back(",
    "std::deque<crab::StringStream, std::allocator<crab::StringStream>>::pop_front()": "vcrep::dq_pop_front(",
    "std::deque<crab::StringStream, std::allocator<crab::StringStream>>::clear()": "vcrep::dq_clear(",
    "void std::deque<crab::StringStream, std::allocator<crab::StringStream>>::emplace_back<std::": "vcrep::dq_emplace_back(",
    "crab::IStringStream::size() const": "vcrep::ss_size(", "crab::IStringStream::write_to(crab::OStream&, unsigned long)": "vcrep::ss_write_to(",
    "crab::OStream::write(unsigned char const*, unsigned long)": "vcrep::os_write(",
    "crab::TCPSocket::is_open() const": "vcrep::sock_open(", "crab::TCPSocket::write_some(unsigned char const*, unsigned long)": "vcrep::sock_write_some(",
    "crab::TCPSocket::read_some(unsigned char*, unsigned long)": "vcrep::sock_read_some(", "crab::TCPSocket::write_shutdown()": "vcrep::sock_shutdown(",
    "crab::TCPSocket::close(bool)": "vcrep::sock_close(", "crab::Timer::once(double)": "vcrep::timer_once(", "crab::Timer::cancel()": "vcrep::timer_cancel(",
    "std::function<void ()>::operator()() const": "vcrep::handler("}), native_replace=True,
    note="std::deque<StringStream>, the string stream (C02), the system socket and timers are replaced by contracts; TLS build not covered.")
CONFIG["C29"]["harness"] = {h: dict(replace=dict(CONFIG["C29"]["opts"]["replace"], **{"crab::BufferedTCPSocket::write()": "vcrep::drain("})) for h in ("H_write", "H_write_string", "H_sock_event")}
CONFIG["C29"]["harness"].update({h: dict(replace={"send$": "vcrep::sys_send(", "recv$": "vcrep::sys_recv(", "shutdown$": "vcrep::sys_shutdown(", "__errno_location": "vcrep::errno_loc(",
    "crab::RunLoop::current()": "vcrep::loop(", "crab::PerformanceStats::push_record(": "vcrep::push_record(", "crab::details::FileDescriptor::reset(int)": "vcrep::fd_reset(",
    "crab::Callable::cancel_callable()": "vcrep::cancel_callable(", "crab::Callable::add_pending_callable(bool, bool)": "vcrep::add_pending("}) for h in ("H_sys_write", "H_sys_read", "H_sys_shutdown")})
HEAPT = "crab::IntrusiveHeap<crab::Timer, &crab::Timer::heap_index, crab::Timer::HeapPred, false>::"
CONFIG["C05"] = dict(opts=dict(feas_ms=200, fp=True, loops={"process_timer": "unroll"}, replace={
    HEAPT + "empty() const": "vcrep::heap_empty(", HEAPT + "front()": "vcrep::heap_front(", HEAPT + "pop_front()": "vcrep::heap_pop(", HEAPT + "insert(": "vcrep::heap_insert(", HEAPT + "erase(": "vcrep::heap_erase(",
    "crab::RunLoop::current()": "vcrep::current(", "std::function<void ()>::operator()() const": "vcrep::handler("}), native_replace=True,
    note="The heap of timers is replaced by its contract (C03: front() has the smallest fire_time); clock values and settings are arbitrary, the clock is at most 2^62 ns; once(double) with NaN is outside.")
CONFIG["C05"]["harness"] = {h: dict(replace=dict(CONFIG["C05"]["opts"]["replace"], **{"crab::Timer::once_at(": "vcrep::once_at("})) for h in ("H_once_duration", "H_once_double")}
CONFIG["C05"]["harness"]["H_loop_turn"] = dict(loops={"::run()": "unroll"}, replace=dict(CONFIG["C05"]["opts"]["replace"], **{"crab::details::RunLoopLinks::process_timer(": "vcrep::process(", "crab::RunLoop::step(": "vcrep::step(", "std::chrono::_V2::steady_clock::now()": "vcrep::clock("}))
CONFIG["C30"] = dict(opts=dict(feas_ms=200, loops={"::advance_state()": "unroll"}, replace={
    "crab::Buffer::read_from(crab::IStream&": "vcrep::read_from(", "crab::Buffer::clear()": "vcrep::buf_clear(",
    "crab::http::WebMessageHeaderParser::parse(crab::Buffer&)": "vcrep::wm_head(", "crab::http::WebMessageBodyParser::parse(crab::Buffer&)": "vcrep::wm_body(",
    "crab::http::RequestParser::parse(crab::Buffer&)": "vcrep::req_parse(", "crab::http::ResponseParser::parse(crab::Buffer&)": "vcrep::resp_parse(", "crab::http::BodyParser::parse(crab::Buffer&)": "vcrep::body_parse(",
    "crab::http::BodyParser::BodyParser(crab::optional<unsigned long>, bool)": "vcrep::body_ctor(", "crab::http::BodyParser::operator=(crab::http::BodyParser&&)": "vcrep::body_assign(", "crab::http::BodyParser::~BodyParser()": "vcrep::body_dtor(",
    "crab::BufferedTCPSocket::write_shutdown()": "vcrep::shutdown(", "crab::BufferedTCPSocket::close(bool)": "vcrep::sclose(", "crab::Timer::cancel()": "vcrep::timer_cancel(", "crab::DNSResolver::cancel()": "vcrep::dns_cancel(",
    "crab::http::ServerConnection::write(crab::http::WebMessage&&, crab::BufferOptions)": "vcrep::send_sv(", "crab::http::ClientConnection::write(crab::http::WebMessage&&)": "vcrep::send_cl(",
    "crab::is_valid_utf8(unsigned char const*, unsigned long)": "vcrep::utf8(", "std::function<void ()>::operator()() const": "vcrep::handler(", "crab::BufferedTCPSocket::is_open() const": "vcrep::tcp_open(",
    "crab::http::ResponseHeader::generate_sec_websocket_accept(": "vcrep::accept_key("}), native_replace=True,
    note="Frame and HTTP parsers (C17, C19-C22), UTF-8 check (C13), socket (C29), timers and the frame writer (C28) are replaced by contracts; one turn of the loop with at most one complete frame, the sequence of turns is by induction outside the verifier.")
CONFIG["C30"]["harness"] = {h: dict(replace=dict(CONFIG["C30"]["opts"]["replace"], **{"crab::http::ServerConnection::advance_state()": "vcrep::advance_sv(", "crab::http::ClientConnection::advance_state()": "vcrep::advance_cl("})) for h in ("H_server_read_next", "H_client_read_next", "H_server_read_request", "H_client_read_response", "H_server_event", "H_client_event")}
CONFIG["C03"] = dict(level="other", bounded_all="one operation from every heap of 0 to 16 elements, any priorities with ties, any element", opts=dict(feas_ms=200, loops={"::move_up(": "unroll", "::move_down(": "unroll"}), technique="bounded check with the contract verifier: one operation from every heap of at most 16 elements (stand-in, not proved beyond that size)",
    note="Bounded, not a proof: heaps of 0 to 16 elements (one more after insertion), any priorities with ties, any element; an invariant over arrays of pointers of arbitrary length is outside the verifier.")
