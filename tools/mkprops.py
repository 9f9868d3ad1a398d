#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
      'quantifier': {'over': over, 'text': ' '.join(quant.split())},
      'why_tests_cant': ' '.join(why.split()),
      'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                  'observe_at': list(observe), 'hook_needed': None}})

p('C01', 'SIP messages survive parse and re-serialisation',
  """Any well-formed SIP request or response that is parsed and written out again carries the same start line,
  the same header fields with the same values in the same order (lists may be split into fields, Content-Type and Content-Length come last, URI parameters may be reordered), and the same body; header names written in compact
  form, with other letter case or folded over several lines mean the same thing. Writing the result of parsing that
  output changes nothing further, Content-Length always equals the number of body bytes, and a message and its copy do
  not influence each other.""",
  ['inputs'], "every well-formed request/response: any mix of known and unknown header fields, any spelling, any body",
  "The tests parse a couple of fixed messages; the guarantee is over the whole message grammar.",
  ['sippy/SipMsg.py', 'sippy/SipRequest.py', 'sippy/SipResponse.py', 'sippy/SipHeader.py', 'sippy/MsgBody.py'],
  [('SipMsg.__init__/__str__/localStr', 'sippy/SipMsg.py'), ('SipHeader / compact names table', 'sippy/SipHeader.py')],
  ['str(msg), msg.localStr(), getHFBody()'])
p('C02', 'Structured header values and URIs keep every component',
  """Every structured header value the stack understands (addresses with display names and parameters, SIP URIs, Via,
  Contact, CSeq, Route/Record-Route, Reason, Replaces, RAck, Warning, Content-Type, Authorization, numeric headers, ...) exposes exactly the
  components present in the text and writes them all back. Copies have equal text, and changing a copy never changes the original.""",
  ['inputs'], "every value generated from each header's grammar, including IPv6 hosts, escaped user parts, quoted names and parameter flags",
  "Unit tests cover Reason, Content-Type and one URL sample; components interact (quoting, brackets, parameters) in unbounded ways.",
  ['sippy/SipURL.py', 'sippy/SipAddress.py', 'sippy/SipAddressHF.py', 'sippy/SipVia.py', 'sippy/SipContact.py', 'sippy/SipCSeq.py', 'sippy/SipReason.py',
   'sippy/SipReplaces.py', 'sippy/SipRAck.py', 'sippy/SipWarning.py', 'sippy/SipContentType.py', 'sippy/SipAuthorization.py', 'sippy/SipNumericHF.py'],
  [('parse()/localStr()/getCopy() of each header class', 'sippy/Sip*.py')], ['parsed attributes, str(), getCopy()'])
p('C03', 'No datagram can crash or wedge the SIP stack',
  """Whatever bytes arrive at the SIP port, the stack either handles them, answers with an error or drops them: no datagram
  makes later well-formed traffic go unserved, leaves behind a transaction nobody owns, or reaches the application as a request that was not sent.
  A truncated or malformed request whose headers still identify its sender is answered with a 4xx to that sender.""",
  ['inputs', 'histories'], "every byte string and every mutation of well-formed messages, interleaved with well-formed traffic",
  "Tests feed only valid messages; robustness quantifies over all inputs.",
  ['sippy/SipTransactionManager.py', 'sippy/SipMsg.py', 'sippy/SipRequest.py', 'sippy/Exceptions/SipParseError.py', 'sippy/Network_server.py'],
  [('handleIncoming error handling', 'sippy/SipTransactionManager.py'), ('handle_read exception barrier', 'sippy/Network_server.py')],
  ['datagrams sent by the stack, requests delivered'])
p('C04', 'SDP bodies survive parsing, copying and rewriting',
  """Parsing an SDP body and writing it out preserves session fields, every media section with its port, transport and formats, all attributes in order
  and the effective connection address of every media section. Editing one section or copy changes nothing else; text that is not valid SDP is reported as
  an SDP error and never as an internal failure.""",
  ['inputs'], "every SDP session: any number of media sections, any placement of connection lines, any attributes; and arbitrary text",
  "Tests parse a few fixed bodies and never check connection-address inheritance across arbitrary section mixes.",
  ['sippy/SdpBody.py', 'sippy/SdpMediaDescription.py', 'sippy/SdpMedia.py', 'sippy/SdpOrigin.py', 'sippy/SdpConnecton.py', 'sippy/MsgBody.py'],
  [('SdpBody parse / c= optimisation', 'sippy/SdpBody.py'), ('optimize_a', 'sippy/SdpMediaDescription.py')], ['str(body), sections'])
p('C05', 'Client transactions: retransmit, time out, one final answer',
  """A request sent by the stack is retransmitted, at intervals starting at 0.5 s and doubling, until any response arrives or 32 s pass; its originator is
  given every distinct provisional response and then exactly one final response (the one received, or a locally generated 408), and nothing after it.
  The final response that ends an INVITE, and every retransmission of it while it is remembered, is answered with an ACK carrying the matching CSeq number, To tag and route.""",
  ['histories', 'fault_sequences', 'schedules'], "every interleaving of responses, losses, duplicates, delays and cancels for INVITE and other methods",
  "No test drives the transaction layer against a lossy, reordering network or across timer boundaries.",
  ['sippy/SipTransactionManager.py'],
  [('newTransaction/incomingResponse/timerA/timerB/timerC', 'sippy/SipTransactionManager.py'), ('l1rcache/l2rcache', 'sippy/SipTransactionManager.py')],
  ['datagrams on the wire, response callback'])
p('C06', 'Server transactions: deliver once, replay the last answer',
  """However often a request is retransmitted, the application sees it once, and each retransmission received after a response was sent is answered with the latest response, byte for byte.
  A final response to an INVITE is repeated at 0.5, 1, 2 ... s until its ACK arrives, for 32 s at most; then the application is told either that the ACK came or that it never did, never both, exactly once.
  Responses go to the address the top Via determines, and requests looping back to a pending client transaction are refused with 482.""",
  ['histories', 'fault_sequences', 'schedules'], "every interleaving of request retransmissions, ACKs, application responses and timer expiry",
  "No test sends duplicate requests or withholds ACKs.",
  ['sippy/SipTransactionManager.py', 'sippy/SipVia.py'],
  [('incomingRequest/sendResponse/timerA/timerD', 'sippy/SipTransactionManager.py'), ('retransmission cache', 'sippy/SipTransactionManager.py')],
  ['requests delivered, datagrams sent'])
p('C07', 'CANCEL takes effect exactly once and only on its own INVITE',
  """A CANCEL matching an unanswered incoming INVITE is answered 200 and makes that INVITE answered 487, with the application told exactly once; after a final response it is answered 200 with no other effect, and a CANCEL matching nothing gets 481.
  An outgoing INVITE that is cancelled before any provisional response sends its CANCEL only after the first one arrives, and the CANCEL carries the INVITE's Request-URI, Via branch, CSeq number, tags and routes.
  An unanswered incoming INVITE expires after its Expires time, or 300 s, as if it had been cancelled.""",
  ['histories', 'schedules'], "every position of the CANCEL relative to provisional/final responses, retransmissions and other calls",
  "No test races CANCEL against responses.",
  ['sippy/SipTransactionManager.py', 'sippy/SipRequest.py', 'sippy/UasStateProgressing.py', 'sippy/UacStateCancelling.py'],
  [('doCancel/cancelTransaction/cancelPending/timerE', 'sippy/SipTransactionManager.py'), ('genCANCEL', 'sippy/SipRequest.py')],
  ['datagrams, cancel callback'])
p('C08', 'Everything a call used is released once it is over',
  """After any sequence of traffic, once all calls have ended and the longest protocol timer has passed, no client or server transaction, dialog registration, pending timer, call record or remembered message is left.
  This holds whether calls ended normally, by timeout, by loss of either side or by refusal.""",
  ['histories', 'fault_sequences'], "every history of calls, losses and refusals, followed by quiescence",
  "Leaks show only after long histories and elapsed protocol timers; tests end in milliseconds.",
  ['sippy/SipTransactionManager.py', 'sippy/UA.py', 'sippy/UaStateDead.py', 'sippy/UaStateFailed.py', 'sippy/UaStateDisconnected.py', 'sippy/b2bua.py'],
  [('transaction cleanup', 'sippy/SipTransactionManager.py'), ('goDead timers', 'sippy/UaStateFailed.py'), ('aDead/oDead', 'sippy/b2bua.py')],
  ['transaction tables, consumers, call map, timer queue'])
p('C09', 'Each call leg reports one consistent life story',
  """For every history of local events, network messages and losses, a call leg reports to its owner at most one connect and exactly one end (disconnect or failure, never both) for every attempt, with the end not before the connect;
  events reach the owner in the order they were created, none twice. After the end the leg becomes dead within 32 s of its last activity (300 s when a cancelled attempt is never answered), reports that exactly once and emits nothing more; the far end is not left in the call.""",
  ['histories', 'schedules', 'fault_sequences'], "every sequence of CC events, requests, responses, cancels and timeouts on incoming and outgoing legs",
  "The state machine has a dozen states times a dozen stimuli times race orders; tests walk one happy path.",
  ['sippy/UA.py', 'sippy/UaStateConnected.py', 'sippy/UasStateTrying.py', 'sippy/UacStateTrying.py', 'sippy/UasStateUpdating.py', 'sippy/UacStateUpdating.py', 'sippy/UacStateCancelling.py', 'sippy/CCEvents.py'],
  [('changeState/emitEvent/elast_seq', 'sippy/UA.py'), ('state classes', 'sippy/Ua*State*.py')], ['event_cb, conn/disc/fail/dead callbacks'])
p('C10', 'In-dialog requests keep dialog identity, order and route',
  """Every request a leg sends within a dialog has the dialog's Call-ID and tags, a CSeq greater than that of every earlier request of that leg (ACK and CANCEL repeat their INVITE's), the peer's latest Contact as target and the recorded route set in the right order with strict or loose routing applied.
  Requests from the peer are accepted only if they match the dialog's identifiers and their CSeq is higher than any before; others are refused with 481 or 500 and do not change the call; every request of the peer is answered.""",
  ['histories', 'inputs'], "every dialog: as caller and callee, any Record-Route set, any number of re-INVITEs/INFO/BYE in both directions",
  "Tests do not build dialogs with route sets nor out-of-order requests.",
  ['sippy/UA.py', 'sippy/UasStateIdle.py', 'sippy/UacStateTrying.py', 'sippy/UaStateConnected.py', 'sippy/SipRequest.py', 'sippy/SipRoute.py'],
  [('genRequest/isYours/update_ua/CSeq checks', 'sippy/UA.py')], ['requests on the wire'])
p('C11', 'Call time limits fire when due and never otherwise',
  """A leg's limits on ring time without progress, without reply and overall, and its credit time, end the call at the configured moment (measured from call setup, respectively from connect) and only if the condition they guard still holds; otherwise they never disturb the call.
  Keep-alive re-INVITEs are sent at the configured interval while the call is up and end it only if the peer reports it gone or stops answering.""",
  ['configurations', 'schedules'], "every combination of limits and every timing of provisional and final responses around them",
  "Timers of tens of seconds in combination need a virtual clock; no test exercises them.",
  ['sippy/UA.py', 'sippy/UacStateIdle.py', 'sippy/UacStateTrying.py', 'sippy/UacStateRinging.py', 'sippy/UasStateIdle.py', 'sippy/UaStateConnected.py', 'sippy/UacStateUpdating.py'],
  [('expires/no_progress_expires/no_reply_expires/credit_expires', 'sippy/UA.py')], ['time-stamped wire messages and callbacks'])
p('C12', 'The B2BUA keeps its two legs in step end to end',
  """For every call the B2BUA accepts, what either party does is reflected to the other: offered and answered SDP arrive unaltered when no media handling is configured, ringing, answer, in-call updates, redirection and refusal codes are passed on, and number, name and passed-through headers appear on the outgoing leg as the route prescribes.
  When either side hangs up, cancels, fails or disappears, the other side is released; no call stays up on one side only.""",
  ['histories', 'schedules', 'fault_sequences', 'inputs'], "every two-party call scenario over a lossy network, including crossing BYE/CANCEL/200 races",
  "The existing end-to-end scripts need two live endpoints and cover fixed scenarios; they are not among the tests that run here.",
  ['sippy/b2bua.py', 'sippy/UA.py', 'sippy/UasStateTrying.py', 'sippy/UacStateTrying.py', 'sippy/UaStateConnected.py'],
  [('CallController.recvEvent', 'sippy/b2bua.py')], ['messages on both legs'])
p('C13', 'Routes are tried in order until one succeeds or hunting must stop',
  """With several routes the B2BUA attempts them strictly in the given order, starting the next only after the previous failed before answer, skipping routes with zero credit or expiry, and stops on success, on a failure code listed as stopping the hunt, when the callee redirects, when the caller gives up or when routes run out.
  The caller receives exactly one final response - the answer or the last failure - and at any time at most one outgoing attempt is live.""",
  ['histories', 'configurations'], "every route list and every outcome (code, silence, caller abandon) for each attempt",
  "Failover logic spans controller, leg timers and transaction layer; no test has more than one route.",
  ['sippy/b2bua.py', 'sippy/B2B/Route.py'],
  [('placeOriginate/recvEvent/huntstop_scodes/group_expires', 'sippy/b2bua.py')], ['INVITEs sent and final response to caller'])
p('C14', 'Accounting reports each leg once, with true times and cause',
  """With accounting on, every authorised call yields exactly one Stop record for the incoming leg and one for each outgoing attempt (unless its route suppresses it), a Start only for answered legs when enabled, and no record twice or after Stop.
  A Stop reports the connect and disconnect times and duration that happened on the wire (zero when unanswered), the party that released the call and the cause mapped from the SIP code.""",
  ['histories', 'fault_sequences'], "every call history, including failover, cancel races and lost messages",
  "Billing correctness quantifies over call histories; no test touches accounting.",
  ['sippy/RadiusAccounting.py', 'sippy/b2bua.py', 'sippy/UA.py'],
  [('conn/disc/asend', 'sippy/RadiusAccounting.py'), ('getAcct', 'sippy/UA.py')], ['accounting requests'])
p('C15', 'No call proceeds without being admitted',
  """The B2BUA places an outgoing call only for an INVITE from an accepted address that passed the configured authorisation, still has hops left and arrived while the service is not shutting down; a digest challenge is offered when required.
  Every other request gets its defined refusal (401, 403, 481, 483, 500, 501 or 503) exactly once and causes no outgoing traffic to a callee and no call record that outlives it.""",
  ['inputs', 'configurations', 'histories'], "every request type, source, Max-Forwards value, credential state, authorisation answer and shutdown moment",
  "Admission combines configuration and request content; no test instantiates the controller.",
  ['sippy/b2bua.py', 'sippy/RadiusAuthorisation.py'],
  [('CallMap.recvRequest/remoteIPAuth/CallController.rDone', 'sippy/b2bua.py')], ['responses and outgoing INVITEs'])
p('C16', 'Operator commands and signals act on exactly the named calls',
  """The management socket and signals list exactly the calls in memory with their true parties and states, disconnect exactly the calls named (or all), report unknown ids and malformed commands as errors, and never affect other calls.
  A media-timeout notification disconnects only its own call, and a requested safe stop refuses new calls and terminates within the grace period.""",
  ['histories', 'inputs'], "every command string in every state of every call population",
  "No test runs the command interface against live calls.",
  ['sippy/B2B/SimpleAPI.py', 'sippy/b2bua.py'],
  [('recvCommand', 'sippy/B2B/SimpleAPI.py'), ('discAll/safeStop/listActiveCalls', 'sippy/b2bua.py')], ['replies and resulting SIP traffic'])
p('C17', 'Digest authentication accepts exactly the right credentials',
  """For every algorithm and protection level offered, a response computed from a challenge with the right user, password, method, URI and body verifies, equals the value RFC 2617/7616 prescribes, and stops verifying if any one of them, the nonce or the counter changes.
  A nonce is accepted only by the issuer, only for the algorithm set it was issued for and only within its lifetime; forged or altered ones are refused.""",
  ['inputs'], "every credential tuple, algorithm, qop, body, nonce age and single-component alteration",
  "The test tries one nonce per algorithm; security claims quantify over all alterations.",
  ['sippy/SipAuthorization.py', 'sippy/SipWWWAuthenticate.py', 'sippy/Security/SipNonce.py', 'sippy/SipProxyAuthorization.py'],
  [('genAuthHF/verify/DigestCalcResponse', 'sippy/SipAuthorization.py'), ('HashOracle.emit_challenge/validate_challenge', 'sippy/Security/SipNonce.py')], ['verify()/validate_challenge()'])
p('C18', 'A challenged outgoing call is retried once with valid credentials',
  """When an outgoing INVITE or registration is challenged and credentials are configured, it is repeated with a correct authorization for the first challenge whose algorithm is supported and enabled, keeping body and extra headers, with a new CSeq; a repeated refusal is reported rather than retried endlessly.
  Without usable credentials or challenge the refusal is passed on unchanged.""",
  ['inputs', 'histories'], "every list of challenges, algorithm restrictions and sequences of repeated challenges",
  "No test runs a challenged call.",
  ['sippy/UA.py', 'sippy/SipRegistrationAgent.py', 'sippy/SipWWWAuthenticate.py'],
  [('processChallenge', 'sippy/UA.py'), ('gotreply', 'sippy/SipRegistrationAgent.py')], ['requests on the wire'])
p('C19', 'Route specifications mean what the documentation says',
  """A routing entry yields exactly the destination, numbers, limits, credentials, headers and options written in it, with caller's values used only where the entry leaves them open, per-call credit from the authorisation server applied unless the route overrides it and the configured maximum always capping it.
  Copies are independent, and the next hop has the address family of the caller whenever the destination offers one.""",
  ['inputs', 'configurations'], "every combination of routing parameters, credit sources and destination address forms",
  "No unit test covers routing entries.",
  ['sippy/B2B/Route.py', 'documentation/documentation.md'],
  [('B2BRoute.__init__/customize/getNHAddr', 'sippy/B2B/Route.py')], ['route attributes'])
p('C20', 'Number translation and attribute transforms follow their rules',
  """A number-translation rule rewrites the matching part of the called number as its expression says, applying chained rules left to right, honouring the global flag and dropping everything from '#'.
  Attribute transforms add exactly the key/value pairs found in the named header or rule, in order, to the legs they name.""",
  ['inputs'], "every rule chain and number; every header value",
  "One fixed transform is tested; rules are a small language.",
  ['sippy/b2bua.py', 'sippy/B2B/Transforms.py'],
  [('re_replace', 'sippy/b2bua.py'), ('HDR2Xattrs/VAL2Xattrs', 'sippy/B2B/Transforms.py')], ['resulting number and attributes'])
p('C21', 'Configuration values are parsed, validated and saved faithfully',
  """Every documented option set on the command line, in a file or programmatically yields the value of its type, invalid values are refused without altering the configuration, and a configuration written to a file and read back is the same configuration.
  Derived settings (address lists, payload lists, header lists, relay lists) contain exactly the listed items.""",
  ['inputs', 'configurations'], "every option and value, valid or not, and every subset written and read back",
  "The module's self-test sets a handful of values.",
  ['sippy/MyConfigParser.py'],
  [('check_and_set/read/write', 'sippy/MyConfigParser.py')], ['config values'])
p('C22', 'Relayed media: SDP points at the relay and sessions are cleaned up',
  """With a media relay, every supported media section of a relayed SDP gets exactly the address and port the relay returned for that section and nothing else in the body changes meaning; hold, IPv6, repacketization and port-zero sections are handled, and the advertised origin stays constant with a version increasing on every change.
  A relay error or SDP error fails the change with the matching SIP code and is reported once. Deleting the session deletes every stream created on the relay, exactly once, after all earlier commands.""",
  ['histories', 'inputs', 'fault_sequences'], "every sequence of offers, answers, updates, relay failures and deletes",
  "Needs an adversarial relay; no test has one.",
  ['sippy/Rtp_proxy/session.py', 'sippy/Rtp_proxy/Session/side.py', 'sippy/Rtp_proxy/Session/update.py', 'sippy/Rtp_proxy/Session/subcommand.py'],
  [('_on_sdp_change/_sdp_change_finish/update/delete', 'sippy/Rtp_proxy/Session/side.py')], ['commands to relay, resulting SDP'])
p('C23', 'Relay commands and statistics keep their fields',
  """A media-relay control command parsed from text and written out again has the same type, options, call id, addresses, tags, notification target and arguments; statistics add up field by field and print in the order and type declared.""",
  ['inputs'], "every command type and field combination the relay protocol allows",
  "No unit test covers the command codec.",
  ['sippy/Rtp_proxy/cmd.py'], [('Rtp_proxy_cmd/UpdateLookupOpts/Rtpp_stats', 'sippy/Rtp_proxy/cmd.py')], ['str(), attributes'])
p('C24', 'Relay control: each command answered once, in order, despite loss',
  """Commands of one media session reach the relay strictly one after another in the order issued; each caller gets exactly one completion carrying the reply to its own command, or a failure when the relay stays silent through all retransmissions.
  Lost, repeated, late, reordered or foreign replies never complete another command; an unresponsive relay is taken out of service and used again only after it answers.""",
  ['histories', 'fault_sequences', 'schedules'], "every schedule of sends, losses, duplicates and reorderings of replies",
  "No test emulates an unreliable relay.",
  ['sippy/Rtp_proxy/Cmd/sequencer.py', 'sippy/Rtp_proxy/Client/udp.py', 'sippy/Rtp_proxy/client.py'],
  [('Rtp_proxy_cmd_sequencer', 'sippy/Rtp_proxy/Cmd/sequencer.py'), ('pending_requests/retransmit', 'sippy/Rtp_proxy/Client/udp.py'), ('go_online/go_offline/heartbeat', 'sippy/Rtp_proxy/client.py')], ['commands on the wire, callbacks'])
p('C25', 'Timers, thread callbacks and signals run once, in order, on time',
  """A timer fires never early, the requested number of times at its period, in due-time order with other timers, and never after being cancelled - also when set or cancelled from within callbacks, and whatever another callback raises.
  Work handed over from other threads runs once, in the event-loop thread, in hand-over order, with results and exceptions returned to synchronous callers; registered signal handlers run once per signal.""",
  ['schedules', 'histories'], "every sequence of arming, cancelling, nesting, raising and time advance; every thread hand-over order",
  "The self-test arms two timers.",
  ['sippy/Core/EventDispatcher.py', 'sippy/Time/Timeout.py', 'sippy/Signal.py'],
  [('dispatchTimers/loop/callFromThread', 'sippy/Core/EventDispatcher.py')], ['callback log with virtual time'])
p('C26', 'Time stamps are monotonic, comparable and convert consistently',
  """Successive time stamps never go backwards whatever the wall clock does; arithmetic, comparison, offset copies and text round-trip agree with real-number arithmetic on the monotonic component, and the wall-clock component follows clock drift smoothly.
  Formatted times denote the instant they were made from.""",
  ['inputs', 'histories'], "every pair of instants/offsets and every history of wall-clock jumps",
  "The self-test compares two adjacent readings.",
  ['sippy/Time/MonoTime.py', 'sippy/Time/clock_dtime.py', 'sippy/Math/recfilter.py'],
  [('MonoTime', 'sippy/Time/MonoTime.py')], ['values'])
p('C27', 'Management connections deliver every command line and reply intact',
  """On a management connection every non-empty line sent is handled exactly once, in order, however the bytes are split across packets, and replies arrive complete and in order, including data queued before a graceful close.
  A connection that misbehaves (non-ASCII data, abrupt close, failing handler) is closed without affecting other connections or the server.""",
  ['inputs', 'schedules', 'fault_sequences'], "every byte stream, fragmentation and close point, with several clients",
  "No test opens a management connection.",
  ['sippy/CLIManager.py'], [('_CLIManager_r/_CLIManager_w/CLIManager', 'sippy/CLIManager.py')], ['socket data, commands delivered'])
p('C28', 'Proxied requests and their responses pass through correctly',
  """Forwarding through the stateful proxy sends the request on with one Via added on top, Max-Forwards reduced by one, Path added only where supported, and everything else untouched; each response comes back to the sender with that Via removed, final responses exactly once.
  A request that ran out of hops is refused with 483 and not forwarded.""",
  ['inputs', 'fault_sequences'], "every REGISTER/SUBSCRIBE and response sequence, with losses and repeats",
  "No test runs the proxy.",
  ['sippy/StatefulProxy.py', 'sippy/b2bua.py', 'sippy/SipTransactionManager.py'],
  [('recvRequest/recvResponse/insertPath', 'sippy/StatefulProxy.py')], ['wire messages'])
p('C29', 'A registration is kept alive until told to stop',
  """The registration agent refreshes its binding when the expiry granted by the server runs out, retries a failed registration after 60 s, always with increasing CSeq, reports every outcome once, answers authentication challenges a bounded number of times and sends nothing after being stopped.""",
  ['histories', 'fault_sequences'], "every sequence of server answers, silences and challenges",
  "No test covers registrations.",
  ['sippy/SipRegistrationAgent.py'], [('doregister/gotreply', 'sippy/SipRegistrationAgent.py')], ['REGISTERs on the wire, callbacks'])
p('C30', 'Every AAA query gets its own answer exactly once',
  """Each request handed to the external AAA helpers is delivered to one helper complete and unmixed, and its result - attributes decoded from the helper's output in order, with the return code - comes back once to the callback that asked, however many helpers and requests are in flight.
  A cancelled request that has not started is neither executed nor reported, and shutdown lets all helpers end.""",
  ['schedules', 'inputs', 'histories'], "every request mix over 1..n helpers and every attribute list",
  "The module self-test hangs at the pinned commit.",
  ['sippy/External_command.py', 'sippy/Radius_client.py'], [('_Worker/process_command', 'sippy/External_command.py'), ('_prepare_attributes/process_result', 'sippy/Radius_client.py')], ['helper input, callbacks'])
p('C31', 'Multipart bodies keep every part, its type and its headers',
  """A multipart/mixed body split into parts and written out again has the same parts in the same order with the same types, part headers and bytes, under a boundary that matches its Content-Type; copies are independent and equal.
  Malformed multipart text is reported as a parse error.""",
  ['inputs'], "every list of parts, header sets, boundaries (quoted or not) and line endings",
  "One fixed body is tested.",
  ['sippy/MultipartMixBody.py', 'sippy/MsgBody.py', 'sippy/SipContentType.py'], [('MultipartMixBody', 'sippy/MultipartMixBody.py')], ['str(), parts'])
p('C32', 'RTP endpoints stay bound to their target through every update',
  """Through any sequence of target, family, codec and packet-time changes an RTP endpoint sends its audio to the current target only, accepts packets only from it, keeps its local port unless the address family forces a new one, and frees its sockets on shutdown.
  Target addresses compare by meaning, not spelling, and allocated ports are even and inside the configured range.""",
  ['histories', 'inputs'], "every sequence of updates and address spellings",
  "Tests cover constructor canonicalisation and one GC case.",
  ['sippy/Rtp/EPoint.py', 'sippy/Rtp/Params.py', 'sippy/Network_server.py'], [('update/_swap_channel', 'sippy/Rtp/EPoint.py'), ('canonicalize_rtp_host', 'sippy/Rtp/Params.py'), ('RTP_port_allocator', 'sippy/Network_server.py')], ['channel operations'])
p('C33', 'Audio framing neither loses, invents nor reorders samples',
  """Audio queued for an RTP stream leaves as packets of exactly the configured duration containing the encoded samples in order; in the receive direction packets delivered in any recoverable order come out as the original sample sequence with gaps filled by silence of the right length.
  Codec frame/sample/time conversions agree with each other.""",
  ['inputs', 'schedules'], "every chunk size sequence, packet time, codec, and packet order/loss",
  "No test pushes audio through.",
  ['sippy/Rtp/OutputWorker.py', 'sippy/Rtp/Ingest.py', 'sippy/Rtp/Codecs/G711.py', 'sippy/Rtp/Codecs/G722.py', 'sippy/Rtp/Core/AudioChunk.py'], [('RTPOutputWorker', 'sippy/Rtp/OutputWorker.py'), ('RTPInStream', 'sippy/Rtp/Ingest.py')], ['packets and audio chunks'])
p('C34', 'Private addresses are replaced by where the message came from',
  """With NAT handling on, every Contact of a request naming a private (RFC 1918), zero-port or broadcast address, when the request came directly from its sender, is replaced by the address and port it was received from, and so is a private Contact in a response to a request that was sent to a public address; no other Contact is touched. Requests inside a call then go there. Besides, responses go back to the address and port the request came from when the sender is behind NAT or asked for it.
  With NAT handling off, Contacts are never altered; the private-range test agrees with RFC 1918 for every IPv4 address.""",
  ['inputs'], "every address, Contact form, Via parameter set and NAT setting",
  "No test covers NAT handling.",
  ['sippy/SipTransactionManager.py', 'sippy/SipVia.py'], [('check1918/handleIncoming nat_traversal', 'sippy/SipTransactionManager.py'), ('getTAddr', 'sippy/SipVia.py')], ['delivered message, response destination'])
p('C35', 'Media policy filtering leaves only allowed payloads, consistently',
  """With an allowed-payload policy, every audio/video section forwarded offers exactly the allowed formats it offered before, in their order, with attributes of removed formats dropped and all others kept; non-media sections are untouched.
  An offer with no allowed format left is refused with 488 and no outgoing call is placed.""",
  ['inputs', 'configurations'], "every SDP and every policy list by number or by codec name",
  "No test covers the filter.",
  ['sippy/b2bua.py', 'sippy/SdpMediaDescription.py'], [('filter_SDP', 'sippy/b2bua.py'), ('getPTbyName/optimize_a', 'sippy/SdpMediaDescription.py')], ['forwarded SDP'])

p('C36', 'UDP servers deliver each datagram whole, once, between the right addresses',
  """Every datagram arriving at a started UDP server is passed to its handler once, unaltered whatever its size, with the sender's address in a form usable for the answer (bracketed for IPv6), the transport and the arrival time.
  Every packet queued is sent once, unaltered, from the server's port to exactly its destination; with one worker the order is kept.
  Handler exceptions, unsendable destinations, transient socket errors and empty datagrams affect nothing else. Configured artificial delay loses nothing.
  After shutdown no handler is called, threads and sockets are gone and the port can be used again.""",
  ['inputs', 'histories', 'schedules', 'faults'], "every history of datagrams, socket errors and shutdowns, any family, size and number of workers",
  "Tests send a few small packets over a healthy socket.",
  ['sippy/Udp_server.py', 'sippy/Network_server.py'], [('Udp_server.send_to/handle_read/shutdown', 'sippy/Udp_server.py'), ('AsyncSender/AsyncReceiver', 'sippy/Udp_server.py'), ('Network_server', 'sippy/Network_server.py')], ['datagrams on the sockets', 'handler calls', 'threads and file descriptors'])

p('C37', 'The SIP log holds every record once, whole, in order and in the right file',
  """Every record at or above the configured level appears once in the configured destination, unbroken, with its Call-ID, application, process id and the time of the event (absolute or relative); records below the level do not appear.
  Records of one thread keep their order, with any number of threads and of loggers on one file. After the file is moved away and the log reopened (also by SIGUSR1), later records go to the new file and none is lost; if reopening fails the old file goes on.
  When the disk is slow, at least the last 1000 records survive, the discarded ones are counted and rotation still happens. Shutdown writes what is queued and leaves no thread, descriptor or signal handler.""",
  ['inputs', 'configurations', 'histories', 'schedules'], "every record, configuration and history of writes, rotations, stalls and shutdowns",
  "No test covers the file logger.",
  ['sippy/SipLogger.py', 'sippy/Signal.py'], [('AsyncLogger', 'sippy/SipLogger.py'), ('write_logfile/format/reopen/shutdown', 'sippy/SipLogger.py'), ('LogSignal', 'sippy/Signal.py')], ['log files', 'stderr', 'syslog calls'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
