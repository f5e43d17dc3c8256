// C24: the Python module, driven by enumerated programs (py_binding.py) in an embedded interpreter.
#include "mc.h"
#include <exception>
#include <unistd.h>
#include <pybind11/embed.h>
#include "core/base.h"
#include "algo/path_planner.h"
#include "algo/smoother.h"
#include "paths/path.h"
namespace py = pybind11;

extern "C" PyObject* PyInit_pyplanning();

namespace {
	std::exception_ptr pending; // what ends the execution, kept while Python unwinds
	template <typename F>
	auto guard(F f) -> decltype(f())
	{
		try {
			return f();
		} catch (...) {
			pending = std::current_exception();
			PyErr_SetString(PyExc_SystemExit, "execution ended");
			throw py::error_already_set();
		}
	}
	py::module_& script()
	{
		static py::module_* m = nullptr;
		if (!m) {
			PyImport_AppendInittab("pyplanning", &PyInit_pyplanning);
			py::initialize_interpreter();
			// No cache of compiled modules next to the sources
			PyRun_SimpleString("import sys; sys.dont_write_bytecode = True");
			py::module_::import("sys").attr("path").attr("insert")(0, VERIF_SRC);
			m = new py::module_(py::module_::import("py_binding"));
		}
		return *m;
	}
	void run(const char* name)
	{
		auto& m = script();
		pending = nullptr;
		std::string error;
		try {
			m.attr(name)();
		} catch (py::error_already_set& e) {
			if (!pending)
				error = e.what();
		}
		py::module_::import("gc").attr("collect")(0);
		if (pending)
			std::rethrow_exception(pending);
		if (!error.empty())
			mc::fail("exception in a Python program: " + error);
	}
}

PYBIND11_EMBEDDED_MODULE(mc, m)
{
	m.def("choose", [](int n) { return mc::choose(n); });
	m.def("split", [] { guard([] { mc::split(); }); });
	m.def("prune", [] { guard([] { mc::prune(); }); });
	m.def("fail", [](const std::string& s) { guard([&] { mc::fail(s); }); });
	m.def("note", [](const std::string& s) { mc::note(s); });
	m.def("transition", [](int n) { mc::transition(n); });
	m.def("state", [](const std::string& s) { mc::state(mc::hashBytes(s.data(), s.size())); });
	m.def("outcome", [](const std::string& s) { mc::outcome(mc::hashBytes(s.data(), s.size())); });
	m.def("thorough", [] { return mc::thorough(); });
	// Values of the enumerations of the library
	using namespace Planner;
	py::dict steer, direction, status, smoothing;
	steer["LEFT"] = (int)Steer::Left;
	steer["STRAIGHT"] = (int)Steer::Straight;
	steer["RIGHT"] = (int)Steer::Right;
	direction["FORWARD"] = (int)Direction::Forward;
	direction["BACKWARD"] = (int)Direction::Backward;
	direction["NO_MOTION"] = (int)Direction::NoMotion;
	status["SUCCESS"] = (int)Planner::Status::Success;
	status["FAILURE"] = (int)Planner::Status::Failure;
	smoothing["MAX_ITERATION"] = (int)Smoother::Status::MaxIteration;
	smoothing["STEP_TOLERANCE"] = (int)Smoother::Status::StepTolerance;
	smoothing["PATH_SIZE"] = (int)Smoother::Status::PathSize;
	smoothing["FAILURE"] = (int)Smoother::Status::Failure;
	smoothing["COLLISION"] = (int)Smoother::Status::Collision;
	m.attr("enums") = py::dict(py::arg("Steer") = steer, py::arg("Direction") = direction, py::arg("Status") = status, py::arg("SmoothingStatus") = smoothing);
}

MC_SCENARIO(C24, values, 0) { run("values"); }
MC_SCENARIO(C24, spaces, 0) { run("spaces"); }
MC_SCENARIO(C24, paths, 0) { run("paths"); }
MC_SCENARIO(C24, maps, 0) { run("maps"); }
MC_SCENARIO(C24, diagrams, 0) { run("diagrams"); }
MC_SCENARIO(C24, lifetimes, 0) { run("lifetimes"); }
MC_SCENARIO(C24, grid_planners, 0) { run("grid_planners"); }
MC_SCENARIO(C24, faults, 0) { run("faults"); }
MC_SCENARIO(C24, subclasses, 0) { run("subclasses"); }
MC_SCENARIO(C24, hybrid, 0) { run("hybrid"); }
