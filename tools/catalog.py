"""The listed properties.  tools/generate.py writes properties.jsonl and
MANIFEST.json from this file; nothing is registered that is not listed here.
"""
P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         observe, technique, trusts, state=None):
    def j(s):
        return ' '.join(s.split())
    P.append(dict(
        id=id, title=title, statement=j(statement), over=over, text=j(text),
        why=j(why), files=files, mechanism=mechanism, observe=observe,
        technique=j(technique), trusts=j(trusts), state=state or []))


prop(
    'C01', 'URL matching is sound, complete and follows the precedence rules',
    """For every route table and every requested path, subdomain or host,
    matching returns the endpoint and the converted values (plus defaults) of
    a route whose pattern covers the whole decoded path within the limits of
    its converters (length, minimum, maximum, fixed digits, allowed words),
    asks for a redirect to the slash-terminated path when a strict branch
    route lacks only its final slash, and answers NotFound exactly when no
    route that is not build-only applies.  Among several applicable routes
    those without variables come first, then those with more parts, then those
    with the more specific converter weights part by part, and test() says
    True exactly when match() would succeed or redirect.  Binding to a WSGI
    environment derives the same path and host or subdomain, and a host that
    is neither the configured server name nor below it never reaches a route
    of the configured domain; server names and subdomains are compared in
    lower case and ASCII form, an explicit subdomain wins over the one in the
    host, and rules that are malformed (no leading slash, stray angle bracket,
    variable used twice, unknown converter) are refused when the map is
    made.""",
    ['inputs', 'configurations'],
    """every table of routes over the documented pattern language with built
    in or user defined converters, every path text, subdomain and host""",
    """The tests match a few dozen literal paths against a few literal tables;
    the statement is about every pair of table and path, and defects lie in
    interactions: converter limits next to static text, competing routes,
    partial matches, trailing characters.""",
    ['verktyg/routing.py'],
    [('Route.compile, Route.match: pattern to regular expression',
      'verktyg/routing.py'),
     ('Route.match_compare_key, URLMap.update: precedence',
      'verktyg/routing.py'),
     ('MapAdapter.match, MapAdapter.test', 'verktyg/routing.py'),
     ('URLMap.bind_to_environ: host and subdomain', 'verktyg/routing.py')],
    ['URLMap.bind(...).match / test', 'URLMap.bind_to_environ(...).match'],
    'property-based testing against a reference matcher',
    'the reference matcher in harness/models/routing.py')

prop(
    'C02', 'Building a URL is the inverse of matching it',
    """For every endpoint, set of values (of the kind the converters
    produce) and binding (script name, scheme, subdomain or host), build either raises BuildError, exactly when no route
    of the endpoint can take the values, or returns a URL whose decoded path
    and host are the route's pattern filled in with the values and which
    matches back to the same endpoint and values.  The route used is a
    non-alias one before an alias and the one that consumes most of the given
    values; values that no variable takes appear
    as the query string, None values are left out, and append_unknown=False
    leaves the query out.  A relative URL is given exactly when the target is
    on the current host and force_external is not set, and every variable is
    percent-encoded so that it cannot change the structure of the URL.""",
    ['inputs', 'configurations'],
    """every endpoint with one or several routes, every mapping of values in
    the converters' ranges plus missing and extra ones, every binding""",
    """Tests build a handful of URLs with plain ASCII values; the round trip
    has to hold for every value (reserved characters, non ASCII text, numbers
    with fixed digits, UUIDs) and every choice among competing routes.""",
    ['verktyg/routing.py', 'verktyg/urls.py'],
    [('Route.build, Route.suitable_for, Route.build_compare_key',
      'verktyg/routing.py'),
     ('MapAdapter.build', 'verktyg/routing.py'),
     ('converters: to_url / to_python', 'verktyg/routing.py')],
    ['MapAdapter.build', 'MapAdapter.match of the built URL'],
    'property-based testing: round trip and reference model',
    'the pattern filler and route choice in harness/models')

prop(
    'C03', 'Redirects issued by the router lead to the same resource',
    """Every redirect issued while matching (missing trailing slash, alias,
    values equal to the defaults of another route of the endpoint, redirect_to
    text or function) points to an absolute URL on the right scheme, host and
    script name.  A redirect for a missing slash, an alias or defaults carries
    the request's query over unchanged and, followed as a client would, ends
    without a loop at the same endpoint with the same values; one for
    redirect_to leads to its text filled in with the converted values as the
    whole target, or to what the function returns for them.  No redirect is issued when none of these reasons applies.""",
    ['inputs', 'configurations'],
    """every route table with aliases, defaults, branch routes and redirect_to,
    every path it matches, every query string or mapping""",
    """Tests follow single redirects of literal tables; chains, queries that
    need encoding and endpoints with several sets of defaults are not
    reached.""",
    ['verktyg/routing.py'],
    [('MapAdapter.match: RequestSlash, RequestAliasRedirect, redirect_to',
      'verktyg/routing.py'),
     ('MapAdapter.get_default_redirect, Route.provides_defaults_for',
      'verktyg/routing.py'),
     ('MapAdapter.make_redirect_url, encode_query_args',
      'verktyg/routing.py')],
    ['RequestRedirect.new_url / location raised by MapAdapter.match'],
    'property-based testing: redirect chains against a model',
    'the redirect model in harness/models/groups.py')

prop(
    'C04', 'Route factories and incremental registration are transparent',
    """Routes wrapped in any nesting of Submount, Subdomain, EndpointPrefix and
    route templates behave exactly as the flat routes they stand for (prefixed
    path, subdomain, prefixed endpoint, substituted placeholders, every other
    option kept).  Registering routes in several steps, in between matching,
    building or iterating, gives the same matching, building, route listing
    and is_endpoint_expecting answers as registering them at once in that
    order, and a template can be used any number of times without its uses
    affecting each other.""",
    ['programs', 'histories'],
    """every tree of route factories, every interleaving of registration with
    use of the map""",
    """Tests use one nesting each and register everything before the first
    match; state kept between registrations (sorted flag, shared defaults,
    rebinding) is only visible in histories.""",
    ['verktyg/routing.py'],
    [('get_routes of the factories, Route.empty', 'verktyg/routing.py'),
     ('RouteTemplateFactory', 'verktyg/routing.py'),
     ('URLMap.add_routes, URLMap.update (remap flag)',
      'verktyg/routing.py')],
    ['URLMap.add_routes, iter_routes, is_endpoint_expecting',
     'MapAdapter.match / build'],
    'property-based testing: histories and trees against the flat table',
    'the flattening in harness/props/c04.py and the reference matcher')

prop(
    'C05', 'Content negotiation selects the best acceptable representation',
    """A value is acceptable when a range of the header matches it; the most
    specific matching range decides its quality and one with q=0 makes it not
    acceptable, no matter in which order ranges are written.  A representation
    is acceptable when its content type, language and charset, each where both
    it and the request state one, are; representations are compared by content
    type, then language, then charset, then server quality qs, within each by
    the specificity of the matching range (for languages: fewest unmatched
    subtags, then longest match) and then by q, a representation not stating a
    dimension ranking below those that do.  The best is returned, of equals
    the one registered last, NotAcceptable is raised exactly when there is
    none, and a header with a malformed range raises ValueError.""",
    ['inputs', 'configurations'],
    """every Accept, Accept-Language and Accept-Charset header of well formed
    ranges, every list of representations""",
    """Tests negotiate a few literal headers; ordering must be a consistent
    total preorder for every combination of ranges, qualities and
    representations.""",
    ['verktyg/accept/__init__.py', 'verktyg/accept/_base.py',
     'verktyg/accept/content_type.py', 'verktyg/accept/language.py',
     'verktyg/accept/charset.py'],
    [('Value.acceptability, Accept parsing', 'verktyg/accept/_base.py'),
     ('Acceptability ordering', 'verktyg/accept/__init__.py'),
     ('select_representation', 'verktyg/accept/__init__.py')],
    ['select_representation', 'ContentType / Language / Charset '
     'acceptability and matching', 'Request accept headers'],
    'property-based testing against a reference scorer, metamorphic '
    'reordering',
    'the reference scorer in harness/models/negotiation.py')

prop(
    'C06', 'Requests are dispatched to the handler registered for them',
    """A lookup returns the binding registered for the endpoint and method that
    content negotiation prefers, where HEAD is served by GET bindings unless
    it has bindings of its own; an unknown endpoint raises NotImplemented, a
    known one without the method MethodNotAllowed, and no acceptable binding
    NotAcceptable, in this order.
    This holds after any history of adding bindings, views, class views, JSON
    views and nested dispatchers, and the binding calls its own handler with
    the arguments given.""",
    ['inputs', 'histories'],
    """every history of registrations and lookups with any method, endpoint
    and accept headers""",
    """Tests register a couple of handlers and look each of them up; the
    statement covers every mix of methods, representations and nesting, and
    lookups in between registrations.""",
    ['verktyg/dispatch.py', 'verktyg/views.py'],
    [('Dispatcher.add_bindings, Dispatcher.lookup', 'verktyg/dispatch.py'),
     ('View / JsonView / ClassView.get_bindings', 'verktyg/views.py')],
    ['Dispatcher.lookup and calling the result'],
    'model-based property testing over registration histories',
    'a dictionary model and the negotiation model of C05')

prop(
    'C07', 'Exceptions are dispatched to the handler of the nearest class',
    """The handler for a raised exception is found by walking the method
    resolution order of its class: the first class that has handlers of which
    at least one is acceptable for the request decides, and among its handlers
    content negotiation chooses; when no class has one, the lookup returns
    nothing.  This holds for every exception hierarchy, including multiple
    inheritance, and every history of registrations, single, or by nesting
    dispatchers, interleaved with lookups.""",
    ['inputs', 'histories'],
    """every exception hierarchy, every history of handler registrations and
    lookups with any accept headers""",
    """Tests have three classes in a line; diamond hierarchies, competing
    representations and fall through to a base class are not reached.""",
    ['verktyg/exception_dispatch.py'],
    [('ExceptionDispatcher.add_exception_handlers, lookup',
      'verktyg/exception_dispatch.py')],
    ['ExceptionDispatcher.lookup and calling the result'],
    'model-based property testing over generated class hierarchies',
    'a model walking the method resolution order, and that of C05')

prop(
    'C08', 'An application answers every request with the right handler',
    """For every application put together from routes, bindings, exception
    handlers and middleware, each WSGI request is answered by the view that
    routing, method dispatch and content negotiation select, called with the
    request and the values from the URL, or, if anything raises on the way, by
    the exception handler for that exception; redirects have a default one
    that sends the Location, and any other exception without a handler
    propagates unchanged.  start_response is called exactly
    once, requests do not affect each other, middleware wraps in the order
    added, and the response and everything registered to be closed with it is
    closed exactly once when the server closes the iterable, however much of
    it was read.  url_for gives the URL that routes back to the endpoint and
    values.""",
    ['programs', 'histories', 'fault_sequences'],
    """every assembled application, every sequence of requests, every point at
    which a view or handler raises or a client goes away""",
    """Tests send single well behaved requests to tiny applications.""",
    ['verktyg/application.py', 'verktyg/exceptions.py', 'verktyg/wsgi.py',
     'verktyg/responses.py'],
    [('BaseApplication._get_response, _wsgi_inner, __call__',
      'verktyg/application.py'),
     ('ApplicationBuilder', 'verktyg/application.py'),
     ('ClosingIterator', 'verktyg/wsgi.py')],
    ['the WSGI interface of the application', 'Application.url_for'],
    'model-based property testing of whole applications with injected '
    'exceptions and abandoned responses',
    'the tables of what was registered; the WSGI server double')

prop(
    'C09', 'MultiDict and OrderedMultiDict behave as lists of pairs',
    """After any history of operations a MultiDict holds, for every key, the
    list of values a plain model would, and every accessor (indexing, get with
    default and type, getlist, items, lists, values, listvalues, keys, len,
    in, to_dict, ==) reports that same content; an OrderedMultiDict in addition
    keeps all pairs in the order they were added.  Missing keys raise KeyError
    (or give the default), removing operations return what they removed, and
    copies, deep copies, pickles and copies by construction are equal to and
    independent of the original.""",
    ['histories'],
    """every sequence of constructing, adding, setting, removing, copying and
    pickling, over any hashable keys""",
    """Tests check single operations on fixed dicts; the linked buckets of the
    ordered variant are only wrong after particular sequences.""",
    ['verktyg/datastructures.py'],
    [('MultiDict', 'verktyg/datastructures.py'),
     ('OrderedMultiDict and its buckets', 'verktyg/datastructures.py')],
    ['the public methods'],
    'stateful model-based testing',
    'the list of pairs model in harness/models/multidict.py')

prop(
    'C10', 'Combined, immutable and observed dictionaries keep their contract',
    """A CombinedMultiDict reads, through every accessor, as the first
    dictionary that has the key with the lists of all of them concatenated,
    follows later changes of them and cannot be changed itself.  Every mutating
    method of the immutable lists, dictionaries and multi dictionaries raises
    TypeError and changes nothing, equal ones of a type have equal hashes, and
    their copies behave as documented (copy() is mutable, copy.copy is the
    object itself).  A CallbackDict equals a plain dict after any history and
    notifies its callback on every changing call and on no other.""",
    ['inputs', 'histories'],
    """every set of source dictionaries, every mutating method and argument,
    every history of dictionary operations""",
    """Tests try some mutating methods; one overlooked method, such as an in
    place operator, breaks immutability and the notifications on which header
    write-through relies.""",
    ['verktyg/datastructures.py'],
    [('CombinedMultiDict', 'verktyg/datastructures.py'),
     ('ImmutableListMixin, ImmutableDictMixin, ImmutableMultiDictMixin',
      'verktyg/datastructures.py'),
     ('UpdateDictMixin', 'verktyg/datastructures.py')],
    ['the public methods and operators'],
    'stateful model-based testing', 'list, dict and pair list models')

prop(
    'C11', 'Headers are an ordered, case insensitive list without line breaks',
    """After any history of operations Headers hold the pairs a plain ordered
    list with case insensitive names would, through every accessor (get with
    default and type, getlist, in, len, iteration, keys, values, items, lower,
    indexing by name, position and slice, conversion to a WSGI list), and
    copies and pickles are equal and independent.  A value with a carriage
    return or line feed is refused with ValueError by every way of putting it
    in, including construction, options of add_header and bytes, and add and
    set then leave the headers as they were.  The view of a WSGI environment
    shows exactly its HTTP_ variables plus Content-Type and Content-Length,
    follows it, and cannot be changed.""",
    ['inputs', 'histories'],
    """every sequence of header operations with names in any case and any str,
    int or bytes values; every WSGI environment""",
    """Header injection needs only one unguarded way in; tests try one or two
    of them, and single operations on short lists.""",
    ['verktyg/http/basic.py', 'verktyg/wsgi.py'],
    [('Headers, _unicodify_header_value', 'verktyg/http/basic.py'),
     ('ImmutableHeadersMixin', 'verktyg/http/basic.py'),
     ('EnvironHeaders', 'verktyg/wsgi.py')],
    ['the public methods of Headers and EnvironHeaders'],
    'stateful model-based testing', 'an ordered list of pairs as model')

prop(
    'C12', 'Structured header values survive being written and read back',
    """For every list, set, dictionary and value-with-options of header values,
    whatever commas, semicolons, quotes, backslashes, equals signs, blanks or
    nothing they hold, dumping and then parsing gives back the same values,
    and optional white space or unnecessary quoting in a hand written header
    makes no difference.  The parsers return something for every string and
    never raise.  A HeaderSet behaves as a case insensitive ordered set after
    any history, serialises to a header that parses to the same set, and
    notifies its callback on changes and only then.""",
    ['inputs', 'histories'],
    """every sequence or mapping of latin-1 values without line breaks with
    token keys; every string given to a parser; every history of set
    operations""",
    """Tests parse a few literal headers; quoting bugs need particular
    combinations of characters.""",
    ['verktyg/http/basic.py'],
    [('quote_header_value, unquote_header_value', 'verktyg/http/basic.py'),
     ('parse_list_header, parse_dict_header, parse_options_header, '
      'parse_set_header', 'verktyg/http/basic.py'),
     ('dump_header, dump_options_header, HeaderSet',
      'verktyg/http/basic.py')],
    ['the parse_* and dump_* functions, HeaderSet'],
    'property-based testing: round trips, stability, stateful model',
    'an independent writer of the same headers')

prop(
    'C13', 'Cookies come back as they were set and inject nothing',
    """Any cookie value, Unicode or not, set on a response comes back unchanged
    when a client returns it, together with all other cookies set.  The
    Set-Cookie line holds exactly the attributes asked for (expires, max-age,
    domain, path, secure, httponly), no value or path can add an attribute,
    a cookie or a line, and deleting a cookie expires it for the same path and
    domain.  Reading a Cookie header never raises and is prompt, and returns
    every well formed cookie between whatever malformed parts.""",
    ['inputs'],
    """every cookie value, every combination of attributes, every Cookie
    header""",
    """Tests use a dozen literal cookies; quoting, octal escapes and charset
    handling are per character, and tolerance is about every malformed
    header.""",
    ['verktyg/http/cookies.py', 'verktyg/responses.py',
     'verktyg/requests.py'],
    [('_cookie_quote, _cookie_unquote, _cookie_parse_impl',
      'verktyg/http/cookies.py'),
     ('dump_cookie, parse_cookie', 'verktyg/http/cookies.py'),
     ('Response.set_cookie, delete_cookie; Request.cookies',
      'verktyg/responses.py, verktyg/requests.py')],
    ['dump_cookie, parse_cookie', 'Set-Cookie headers of a response',
     'Request.cookies'],
    'property-based testing: round trip, independent parser, fuzzing',
    'an independent Set-Cookie parser in harness/props/c13.py')

prop(
    'C14', 'HTTP dates denote the instant they were made from',
    """http_date and cookie_date write any instant, given as naive UTC or aware
    datetime, time tuple or number of seconds, as the fixed format date of
    that second in GMT with the right weekday; parse_date reads it back to the
    same second, and reads the three HTTP date formats and numeric time zones
    of one instant to the same datetime.  parse_date never raises: any text
    that is not a date gives None.""",
    ['inputs'],
    'every instant from the year 1000 to 9999 and every string',
    """Tests check three literal dates; month ends, time zones across midnight,
    fractions and malformed fields are not reached.""",
    ['verktyg/http/basic.py', 'verktyg/http/cookies.py'],
    [('parse_date, _dump_date, http_date', 'verktyg/http/basic.py'),
     ('cookie_date', 'verktyg/http/cookies.py')],
    ['http_date, cookie_date, parse_date',
     'date headers of requests and responses'],
    'property-based testing: round trip, independent formatter, fuzzing',
    'an independent formatter built on divmod arithmetic and datetime')

prop(
    'C15', 'Entity tags and conditional requests are decided correctly',
    """Entity tags, strong or weak, survive quoting and unquoting, and sets of
    them being written to and read from If-Match and If-None-Match headers;
    a star matches every tag.  A GET or HEAD of a resource counts as
    unmodified exactly when its tag is listed in If-None-Match, or, where that
    does not apply (no header or no tag), when it was not changed after
    If-Modified-Since to the second; other methods are never answered
    conditionally.  A response made conditional turns into a 304 without body
    and entity headers exactly then, and is sent unchanged otherwise.""",
    ['inputs', 'configurations'],
    """every tag, every list of tags in the headers, every pair of
    modification times, every method""",
    """Tests decide a few literal requests; precedence between the two
    conditions and weak comparison multiply into cases they do not visit.""",
    ['verktyg/http/cache_control.py', 'verktyg/responses.py',
     'verktyg/requests.py'],
    [('quote_etag, unquote_etag, parse_etags, ETags, is_resource_modified',
      'verktyg/http/cache_control.py'),
     ('ETagResponseMixin.make_conditional, add_etag, set_etag',
      'verktyg/responses.py')],
    ['is_resource_modified', 'Response.make_conditional run as WSGI',
     'Request.if_match, if_none_match, if_modified_since'],
    'property-based testing against a decision model',
    'the decision model in harness/props/c15.py')

prop(
    'C16', 'Ranges and content ranges denote the bytes they say',
    """A Range header of ascending, non overlapping byte ranges is parsed to
    exactly those ranges, and for any body length a single satisfiable range
    gives the half open interval and the Content-Range of the bytes it
    denotes, while unsatisfiable ones give nothing; everything malformed,
    overlapping or descending is ignored as a whole.  Ranges, content ranges
    and If-Range values (tag or date) survive being written and read back,
    changes to a response's content range show in its header, and the parsers
    never raise.""",
    ['inputs', 'histories'],
    'every header text, every list of ranges, every body length',
    """Tests parse a few literal headers; off by one errors at the ends, at
    open and suffix ranges and at the body length need systematic bounds.""",
    ['verktyg/http/cache_control.py', 'verktyg/http/basic.py'],
    [('Range, parse_range_header', 'verktyg/http/cache_control.py'),
     ('ContentRange, parse_content_range_header',
      'verktyg/http/cache_control.py'),
     ('IfRange, parse_if_range_header', 'verktyg/http/cache_control.py'),
     ('is_byte_range_valid', 'verktyg/http/basic.py')],
    ['parse_range_header, Range.range_for_length, make_content_range, '
     'to_header', 'Response.content_range'],
    'property-based testing against slicing, round trips, fuzzing',
    'slicing of a byte string as oracle')

prop(
    'C17', 'Cache-Control and authentication headers follow their accessors',
    """After any history of setting and deleting directives through the
    attributes or dictionary operations of a response's cache control or WWW
    authenticate object the header says exactly that, reads back to the same
    values, and disappears when empty; a request's cache control reports the
    directives of the header and cannot be changed.  Basic credentials decode
    to the user name and password sent, Digest credentials to every parameter
    sent provided the required ones are there, a scheme in any case, and
    everything malformed gives None without raising.""",
    ['inputs', 'histories'],
    """every history of changes to the header objects, every user name,
    password and digest parameter, every header text""",
    """Tests set two or three directives and parse one header of each kind.""",
    ['verktyg/http/cache_control.py', 'verktyg/http/auth.py',
     'verktyg/responses.py', 'verktyg/requests.py'],
    [('_CacheControl, cache_property, parse_cache_control_header',
      'verktyg/http/cache_control.py'),
     ('Authorization, parse_authorization_header', 'verktyg/http/auth.py'),
     ('WWWAuthenticate, parse_www_authenticate_header',
      'verktyg/http/auth.py')],
    ['Response.cache_control, Response.www_authenticate and their headers',
     'Request.cache_control, Request.authorization'],
    'stateful model-based testing and round trips',
    'an independent parser of the written headers')
prop(
    'C18', 'A response is sent exactly as it was built',
    """After any history of changes to a response (status, headers, header
    attributes, data, stream writes, iterables, freezing), what the WSGI
    server receives is the status, the headers and the bytes last set, with
    Content-Length equal to the bytes of a known body and absent for a
    streamed one, no body for HEAD, 1xx, 204 and 304, no entity headers for
    304, and Location and Content-Location as ASCII URLs, Location made
    absolute against the host and script root unless autocorrect is off.  Every
    header attribute (mimetype and its parameters, lengths, encodings, dates,
    sets and so on) writes through to its header and reads back what was set,
    and status and status_code always agree.  Closing calls every registered
    callback and the body's own close exactly once, and wrapping or converting
    a response (force_type, from_app) keeps status, headers and body.""",
    ['inputs', 'histories'],
    """every history of changes over any body, status, header and request
    method""",
    """Tests build a few fixed responses; lengths, laziness and closing depend
    on the order of operations.""",
    ['verktyg/responses.py', 'verktyg/utils.py', 'verktyg/http/basic.py'],
    [('BaseResponse.get_data, set_data, make_sequence, iter_encoded, freeze',
      'verktyg/responses.py'),
     ('BaseResponse.get_wsgi_headers, get_app_iter, get_wsgi_response',
      'verktyg/responses.py'),
     ('CommonResponseDescriptorsMixin, header_property',
      'verktyg/responses.py'),
     ('remove_entity_headers, remove_hop_by_hop_headers',
      'verktyg/http/basic.py')],
    ['the WSGI output of a response', 'attributes and headers of Response'],
    'stateful model-based testing',
    'a model of body, headers and callbacks in harness/props/c18.py')

prop(
    'C19', 'Request bodies are never read past their announced length',
    """Whatever sequence of reads, sized reads, readlines and iteration is
    applied to the input stream of a request, it behaves as an in memory file
    holding exactly the first Content-Length bytes and never asks the
    underlying stream for a byte beyond them.  A client that sends less, or a
    stream that fails, leads to ClientDisconnected (or whatever an overridden
    on_disconnect does) and never to silently short data.  Without a usable
    Content-Length the stream is empty unless the server says its input is
    terminated.""",
    ['inputs', 'histories', 'fault_sequences'],
    """every body, limit, chunking of the underlying stream, history of read
    operations, and point at which the client goes away""",
    """Reading one byte too many blocks a real server; tests read from
    complete in memory streams only.""",
    ['verktyg/wsgi.py', 'verktyg/requests.py'],
    [('LimitedStream', 'verktyg/wsgi.py'),
     ('get_content_length, get_input_stream', 'verktyg/wsgi.py'),
     ('BaseRequest.stream, get_data', 'verktyg/requests.py')],
    ['LimitedStream, get_input_stream, Request.stream, Request.get_data'],
    'stateful testing against BytesIO with fault injection',
    'io.BytesIO as reference, a recording stream double')

prop(
    'C20', 'Line and chunk iterators do not depend on how data is buffered',
    """make_line_iter and make_chunk_iter give the lines, respectively the parts
    between separators, of the whole data, no matter how a stream or iterable
    delivers it, which buffer size is used, for text and for bytes, with
    separators of any length even when split over two reads, and read no more
    than the limit.  File wrappers yield all of a file in blocks and close it,
    and a FileStorage iterates over and saves exactly the content of
    its stream under any buffer size.""",
    ['inputs', 'schedules'],
    """every data, separator, buffer size, limit and division of the data into
    reads""",
    """The result must be independent of the chunking; tests try one or two
    divisions of one text.""",
    ['verktyg/wsgi.py', 'verktyg/http/basic.py'],
    [('make_line_iter, make_chunk_iter, _make_chunk_iter', 'verktyg/wsgi.py'),
     ('FileWrapper, wrap_file', 'verktyg/wsgi.py'),
     ('FileStorage', 'verktyg/http/basic.py')],
    ['the iterators and their output, the file written by FileStorage.save'],
    'metamorphic property-based testing over chunkings',
    'splitting of the joined data')

prop(
    'C21', 'Converting URLs keeps every component; redirects stay on target',
    """Converting between IRI and URI form keeps scheme, user, host, port, path
    segments, query and fragment once decoded, gives pure ASCII in URI form, is
    idempotent, and the two conversions undo each other; no escaped delimiter
    turns into a real one or the other way round.  url_fix gives a valid URI
    with the same components for any sloppy URL.  redirect() sends the given
    status and exactly the converted location, with an HTML page in which the
    location cannot break out of its link, and append_slash_redirect leads to
    the same path with a slash and the same query on the same host.""",
    ['inputs'],
    """every URL with any characters in its components, escaped or raw, every
    redirect target, path and query""",
    """Tests convert a dozen literal URLs; what is safe to unescape differs by
    character and component.""",
    ['verktyg/urls.py', 'verktyg/utils.py', 'verktyg/responses.py'],
    [('iri_to_uri, uri_to_iri, url_fix, encode_idna, decode_idna',
      'verktyg/urls.py'),
     ('redirect, append_slash_redirect', 'verktyg/utils.py')],
    ['the functions and the responses they return'],
    'property-based testing: componentwise comparison and round trips',
    'an independent URL splitter and percent decoder in harness/props/c21.py')

prop(
    'C22', 'Host trust and the current URL are derived soundly from a request',
    """A host is trusted exactly when it equals an entry of the list, ports and
    the form of internationalised names aside, or lies below an entry that
    starts with a dot; otherwise the host and every URL attribute of the
    request raise SecurityError.  The host comes from the first of
    X-Forwarded-Host, Host and server name with port if not the default one of
    the scheme.  The current URL in all its variants is made up of exactly the
    scheme, host, script name, path and query of the request, for any
    characters in them.""",
    ['inputs', 'configurations'],
    """every host name, list of trusted hosts, and environ with any path and
    query""",
    """Trust decisions fail at near misses (common suffixes, ports, IDNA
    forms, addresses) that tests do not enumerate.""",
    ['verktyg/wsgi.py', 'verktyg/requests.py'],
    [('host_is_trusted, get_host', 'verktyg/wsgi.py'),
     ('get_current_url, get_query_string, get_path_info, get_script_name',
      'verktyg/wsgi.py'),
     ('BaseRequest.host, url, base_url, url_root, host_url',
      'verktyg/requests.py')],
    ['host_is_trusted, get_host, get_current_url', 'attributes of Request'],
    'property-based testing against a label list model',
    'the label list model and URL splitter')

prop(
    'C23', 'Static files and mounted applications are served as configured',
    """SharedDataMiddleware answers a request from the first export that has a
    regular file at the path, with its bytes, length, type, modification time
    and, with caching on, an ETag and lifetime, answers 304 exactly when the
    validators sent by a GET or HEAD still match, and never serves a file
    outside of the exports or one that is disallowed, for any path; all other
    requests reach the application unchanged.  DispatcherMiddleware calls the
    application whose mount point is the longest one that is a prefix of the
    path in whole segments, or else the default one, and moves exactly that
    prefix from PATH_INFO to SCRIPT_NAME.  ClosingIterator yields what the
    iterable yields and on close calls the iterable's close and then every
    callback in order.""",
    ['inputs', 'configurations'],
    """every set of exports (directory, file, package, zipped package), mount
    table, request path, and change of a file between two requests""",
    """Containment is about every path; tests request a handful of existing
    files.""",
    ['verktyg/wsgi.py'],
    [('SharedDataMiddleware', 'verktyg/wsgi.py'),
     ('DispatcherMiddleware', 'verktyg/wsgi.py'),
     ('ClosingIterator', 'verktyg/wsgi.py')],
    ['WSGI calls to the middleware'],
    'property-based testing over generated trees, mounts and paths',
    'a lookup model over a scratch tree with marked secrets')

prop(
    'C24', 'secure_filename gives a harmless name for every input',
    """For every text, secure_filename returns an ASCII name of letters, digits,
    dots, dashes and underscores that neither starts nor ends with a dot or
    underscore, so that joined to a directory it names an entry of that very
    directory.  It is idempotent, leaves names that are already of this form
    alone, and keeps the ASCII letters and digits of the (decomposed) name in
    order with the separators and blanks between them as underscores.  On
    Windows a name that is a device there, with or without an extension and in
    any case (CON, AUX, PRN, NUL, COM1-9, LPT1-9), gets a leading
    underscore.""",
    ['inputs'],
    'every Unicode string',
    """A safety function over all of Unicode; tests try five names.""",
    ['verktyg/utils.py'],
    [('secure_filename', 'verktyg/utils.py')],
    ['secure_filename'],
    'property-based testing of invariants over Unicode strings',
    'the stated character classes and Unicode normalisation of Python')

prop(
    'C25', 'The request object reports what the WSGI environ says',
    """For every WSGI environ each attribute of a request (method, paths, query
    and arguments, cookies, headers, addresses, scheme and flags, lengths,
    types, dates, ranges, tags, cache control, credentials) has the value its
    variable stands for, falls back without raising when the variable is
    missing or malformed, does not depend on which attributes were read before,
    and reading it changes neither the environ nor what is returned later;
    arguments, cookies, headers, addresses, cache control and credentials cannot
    be modified.  The body read through get_data and the stream is
    the same bytes once over, cached unless declined; a shallow request refuses
    to consume it and stays out of the environ.  Closing a request, also by
    leaving its with block, calls its callbacks in order, and a cached property
    is computed once per object.""",
    ['inputs', 'histories'],
    """every environ of latin-1 strings, every order of attribute accesses and
    body reads""",
    """Tests read single attributes of tame environs.""",
    ['verktyg/requests.py', 'verktyg/wsgi.py', 'verktyg/utils.py'],
    [('BaseRequest, ETagRequestMixin, AuthorizationMixin, '
      'CommonRequestDescriptorsMixin', 'verktyg/requests.py'),
     ('cached_property', 'verktyg/utils.py')],
    ['attributes and methods of Request'],
    'property-based testing: environs generated from their meaning',
    'the meaning each variable was generated from')

prop(
    'C26', 'The test tools transport requests and responses faithfully',
    """A request built with EnvironBuilder, create_environ or the client
    arrives with exactly the path, query arguments, headers, method, host and
    script root given, its body as the bytes, urlencoded or multipart encoding
    of the data, fields and files given, repeated values and odd characters
    included, and the right length.  The client returns the cookies currently
    set, follows redirects to the final answer with the right method and query,
    and reports loops and external targets as errors.  Running an application
    gives its status, headers and all output written or yielded, in order, and
    closes it exactly once, buffered or not.""",
    ['inputs', 'histories'],
    """every set of builder arguments, every history of client requests, every
    conforming application""",
    """The tools are what all other tests trust; they are tested with single
    plain ASCII requests.""",
    ['verktyg/test.py'],
    [('stream_encode_multipart, EnvironBuilder', 'verktyg/test.py'),
     ('Client, _TestCookieJar', 'verktyg/test.py'),
     ('run_wsgi_app', 'verktyg/test.py')],
    ['environs built, requests received by an application, results of '
     'run_wsgi_app and Client.open'],
    'property-based testing: round trips and stateful model',
    'independent multipart and urlencoded readers, a cookie dictionary')

prop(
    'C27', 'abort() and the HTTP exceptions carry the right status and details',
    """abort called with a status code raises exactly the exception class of
    that code, made with the remaining arguments, LookupError for a code it does
    not know, and for anything but a number an HTTPException whose response is
    that object; an Aborter knows exactly the codes of its mapping plus the
    extra ones, which take precedence, and neither making it nor changing the
    mappings later affects another one.  Every HTTP exception has the code, name
    and description of its class unless another description is given, prints as
    code and name, and survives copying and pickling.  A class made with wrap
    is caught as either of the classes it combines and keeps the argument and
    the description.""",
    ['inputs', 'histories'],
    """every status code, argument combination and set of aborters""",
    """Tests call abort with a fixed list of codes and look at the type only.
    """,
    ['verktyg/exceptions.py'],
    [('HTTPException, HTTPException.wrap', 'verktyg/exceptions.py'),
     ('Aborter, abort, default_exceptions', 'verktyg/exceptions.py')],
    ['exceptions raised and their attributes'],
    'model-based property testing',
    'a table of status codes and classes written in the harness')

prop(
    'C28', 'Requests served at the same time do not affect each other',
    """For every application (or URL map), every set of requests (or matches and
    builds) made to it from several threads, the first ones included, and every
    interleaving of them, each gets exactly the answer it gets when it is the
    only one: the same view or handler, called with its own request and values,
    the same status, headers and body, and no error that is not its own.""",
    ['schedules'],
    """every interleaving of threads at the granularity of source lines""",
    """The tests are single threaded, and the windows are a few instructions
    wide.""",
    ['verktyg/application.py', 'verktyg/routing.py', 'verktyg/dispatch.py',
     'verktyg/exception_dispatch.py', 'verktyg/wsgi.py'],
    [('BaseApplication', 'verktyg/application.py'),
     ('URLMap.update, MapAdapter.match, MapAdapter.build',
      'verktyg/routing.py'),
     ('Dispatcher.lookup', 'verktyg/dispatch.py')],
    ['responses of an application called in threads', 'results of match, '
     'build, test and is_endpoint_expecting'],
    'property-based testing over generated thread schedules (a deterministic '
    'scheduler switches threads at generated source lines)',
    'differential: the same request alone on an equal application')


NOT_APPLICABLE = []
