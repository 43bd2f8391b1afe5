package main

// share is how much of a property's search goes to one workload profile.
type share struct {
	profile string
	w       float64
}

// prop says how a property is searched for violations.
type prop struct {
	id     string
	shares []share
	quick  int // runs
	// a run counts as non-trivial if one of these counters is above zero
	touch []string
	what  string // what makes a run non-trivial, in words
}

var faultKeys = []string{"fired:*"}

var props = map[string]*prop{}

func p(id string, quick int, what string, touch []string, sh ...share) {
	props[id] = &prop{id: id, quick: quick, what: what, touch: touch, shares: sh}
}

func init() {
	up := []string{"fired:upstream_", "fired:dial_", "fired:net_outage_delay", "fired:net_loss_retransmit", "fired:transport_replay"}
	p("P01", 10000, "at least one injected fault fired, or statements were stalled, while requests were in flight", []string{"fired:", "stalls"},
		share{"fault", 3}, share{"race", 2}, share{"mix", 1.5}, share{"retry", 1.5}, share{"deadline", 1}, share{"body", 1}, share{"slow", 1}, share{"jwt", 1}, share{"heal", 1}, share{"codec", 1}, share{"tls", .5}, share{"about", .5}, share{"pool", .5}, share{"log", .5}, share{"jwks", .4}, share{"daemon", .1}, share{"policy", .1}, share{"boot", .3}, share{"crowd", .5}, share{"deflt", .2})
	p("P02", 10000, "a request ran into a timeout (504) or a wall clock jump, stall or slow upstream was injected", []string{"metric:status_504", "fired:wall_clock_jump", "stalls", "fired:upstream_stall"},
		share{"deadline", 6}, share{"retry", 1}, share{"fault", 1}, share{"heal", .5}, share{"race", 1}, share{"mix", .3}, share{"body", .3}, share{"jwt", .3}, share{"jwks", .05}, share{"crowd", .3}, share{"slow", .3})
	p("P03", 10000, "an upstream attempt stalled, or connecting did", []string{"fired:upstream_stall", "fired:dial_", "metric:status_504"},
		share{"deadline", 4}, share{"retry", 3}, share{"fault", 1.5}, share{"tls", .3}, share{"heal", .5}, share{"crowd", .3}, share{"race", .3}, share{"codec", .2}, share{"body", .2})
	p("P04", 10000, "an upstream fault fired in a run with upstream exchanges", up,
		share{"retry", 4}, share{"fault", 2}, share{"race", 1}, share{"deadline", 1}, share{"pool", 1}, share{"heal", 1}, share{"mix", .5}, share{"jwt", .3}, share{"body", .3}, share{"tls", .2}, share{"codec", .3}, share{"crowd", .2})
	p("P05", 10000, "an upstream fault fired in a run with upstream exchanges", up,
		share{"retry", 5}, share{"fault", 2}, share{"heal", 2}, share{"race", 1}, share{"deadline", 1}, share{"jwt", .3}, share{"body", .3}, share{"codec", .5}, share{"mix", .5}, share{"tls", .3}, share{"crowd", .3}, share{"policy", .03})
	p("P06", 10000, "at least two upstream exchanges took place", []string{"metric:arrivals"},
		share{"mix", 2}, share{"race", 2.5}, share{"codec", 2}, share{"fault", 2}, share{"retry", 1.5}, share{"pool", .5}, share{"log", .3}, share{"jwt", .4}, share{"tls", .3}, share{"body", .3}, share{"heal", .3}, share{"deadline", .3}, share{"crowd", .2}, share{"policy", .03})
	p("P07", 10000, "at least one request was forwarded to an upstream", []string{"metric:arrivals"},
		share{"mix", 4}, share{"race", 1.5}, share{"fault", 1}, share{"jwt", 1}, share{"retry", 1}, share{"body", 1}, share{"pool", .5}, share{"policy", .1}, share{"tls", .3}, share{"log", .3}, share{"codec", .3}, share{"deadline", .3})
	p("P08", 10000, "a request body was cut off, stalled, too large, or sent in pieces through back-pressure", []string{"fired:client_abort_", "metric:status_413", "metric:status_400", "fired:net_backpressure"},
		share{"body", 6}, share{"slow", 1}, share{"mix", 1}, share{"fault", .3}, share{"jwt", .3}, share{"crowd", .3}, share{"deadline", .3})
	p("P09", 10000, "a token was refused or accepted on a protected route", []string{"metric:status_401", "metric:arrivals"},
		share{"jwt", 6}, share{"jwks", .3}, share{"mix", .2}, share{"tls", .2})
	p("P10", 2400, "key sets were fetched and at least one key-server fault or rotation happened", []string{"metric:jwks_fetches"},
		share{"jwks", 5}, share{"tls", .5})
	p("P11", 2400, "key sets were fetched more than once at boot", []string{"metric:jwks_fetches"},
		share{"jwks", 5})
	p("P12", 2000, "a weighted split was sampled or routed through a policy", []string{"metric:policy_samples", "metric:arrivals"},
		share{"policy", 3}, share{"mix", 1.5}, share{"race", 1})
	p("P13", 10000, "a client stalled, went silent or read slowly", []string{"fired:client_"},
		share{"slow", 6}, share{"body", 1}, share{"tls", .3}, share{"crowd", .3}, share{"deflt", .3}, share{"mix", .5}, share{"fault", .3})
	p("P14", 10000, "upstream connections were opened", []string{"metric:upstream_conns"},
		share{"pool", 4}, share{"fault", 1}, share{"retry", 1.5}, share{"deadline", 1}, share{"slow", 1}, share{"heal", 1}, share{"race", 1}, share{"crowd", .5}, share{"codec", .3}, share{"body", .3}, share{"tls", .3}, share{"deflt", .2})
	p("P15", 10000, "a TLS handshake took place with an upstream, a key server or a client", []string{"metric:tls_conns_used", "metric:tls_refused", "fired:upstream_tls"},
		share{"tls", 6}, share{"jwks", .3}, share{"mix", .5}, share{"daemon", .02}, share{"crowd", .3}, share{"boot", .2})
	p("P16", 10000, "at least one request was answered and logged", []string{"metric:responses"},
		share{"log", 4}, share{"race", 1.5}, share{"mix", 1}, share{"fault", 1}, share{"retry", 1}, share{"jwt", .5}, share{"codec", .5}, share{"about", .3}, share{"body", .5}, share{"tls", .3}, share{"deadline", .5}, share{"heal", .3}, share{"crowd", .3})
	p("P17", 9000, "the boot sequence ran on a faulty configuration or environment, or on a valid one", []string{"boot", "metric:responses"},
		share{"boot", 6}, share{"deflt", 1})
	p("P18", 1000, "the background tasks ran for simulated hours or days", []string{"metric:daemon_hours"},
		share{"daemon", 6}, share{"tls", .5})
	p("P19", 10000, "the proxy answered with an error document of its own", []string{"metric:status_4", "metric:status_5"},
		share{"mix", 1.5}, share{"body", 1.5}, share{"jwt", 1.5}, share{"retry", 1.5}, share{"codec", 2}, share{"deadline", 1}, share{"fault", 1}, share{"tls", .5}, share{"log", .3}, share{"crowd", .3}, share{"about", .2}, share{"heal", .3})
	p("P20", 10000, "the status document was asked for while upstreams were failing or the process was stalled", []string{"metric:about"},
		share{"about", 6}, share{"fault", 1}, share{"crowd", 1}, share{"jwks", .1}, share{"daemon", .02}, share{"race", .3}, share{"tls", .3})
	p("P21", 10000, "an upstream answer was relayed or an error document sent", []string{"metric:responses"},
		share{"codec", 6}, share{"mix", 1}, share{"body", .5}, share{"race", .5}, share{"jwt", .3})
	p("P22", 10000, "requests were in flight together and at least one upstream, client or key server was slow, stalled or silent", []string{"fired:"},
		share{"crowd", 6}, share{"fault", 1}, share{"deadline", 1}, share{"jwks", .2}, share{"about", .5}, share{"slow", .5}, share{"race", .5}, share{"retry", .5}, share{"heal", .3}, share{"body", .3}, share{"tls", .2})
	p("P23", 10000, "secrets were in play while log records were written", []string{"metric:secrets_watched"},
		share{"jwt", 3}, share{"jwks", .3}, share{"log", 2}, share{"fault", 1}, share{"retry", 1}, share{"body", 1}, share{"codec", 1}, share{"boot", 1}, share{"tls", .5}, share{"about", .3})
}
