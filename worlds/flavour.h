// Selects the asio flavour of the binary: FLAV_BOOST (also contains the built-in loop scheduler) or FLAV_SA.
#pragma once
#ifdef FLAV_SA
#include <cli/standaloneasioscheduler.h>
#include <cli/standaloneasioremotecli.h>
#include <cli/standaloneasiocliasyncsession.h>
using AsioScheduler = cli::StandaloneAsioScheduler;
using AsioTelnetServer = cli::StandaloneAsioCliTelnetServer;
using AsioAsyncSession = cli::StandaloneAsioCliAsyncSession;
namespace asiox = asio;
#define FLAV "sa"
#else
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
#include <cli/boostasiocliasyncsession.h>
using AsioScheduler = cli::BoostAsioScheduler;
using AsioTelnetServer = cli::BoostAsioCliTelnetServer;
using AsioAsyncSession = cli::BoostAsioCliAsyncSession;
namespace asiox = boost::asio;
#define FLAV "boost"
#endif
#include <cli/loopscheduler.h>
#include "../sim/sim.h"
