"""What each check runs, reports and says about itself."""

# kinds: the violation kinds that break this property.
# quick / thorough: number of simulated runs.
PROPS = {
	"C01": dict(kinds=("result", "stuck"), quick=28000, thorough=260000),
	"C02": dict(kinds=("result", "stuck"), quick=26000, thorough=350000),
	"C03": dict(kinds=("result", "stuck"), quick=44000, thorough=450000),
	"C04": dict(kinds=("result", "stuck"), quick=26000, thorough=300000),
	"C05": dict(kinds=("fault-lost", "stuck"), quick=50000, thorough=700000),
	"C06": dict(kinds=("result", "stream", "stuck"), quick=20000, thorough=350000),
	"C07": dict(kinds=("arg-changed",), quick=44000, thorough=600000),
	"C08": dict(kinds=("shared-result",), quick=34000, thorough=450000),
	"C09": dict(kinds=("retained",), quick=18000, thorough=200000),
	"C10": dict(kinds=("value-touched", "result"), quick=60000, thorough=600000),
	"C11": dict(kinds=("torn", "stuck"), quick=52000, thorough=700000),
	"C12": dict(kinds=("diverged",), quick=6500, thorough=70000),
	"C13": dict(kinds=("docs",), quick=25000, thorough=100000),
	"C21": dict(kinds=("result", "stuck", "leaked", "fault-lost"), quick=30000, thorough=400000),
	"C22": dict(kinds=("result", "stuck", "fault-lost"), quick=20000, thorough=300000),
	"C23": dict(kinds=("process",), quick=16000, thorough=200000),
}
