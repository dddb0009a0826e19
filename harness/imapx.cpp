// The command line tool of /repo plus one observation command used by the checks:
//   xslot -i K -f FILE   write history slot K (0..4) as AIGER
#include "cli/cache.hpp"
#include "cli/command/io/read_aiger.hpp"
#include "cli/command/io/write_aiger.hpp"
#include "cli/command/io/write_fpga.hpp"
#include "cli/command/io/write_verilog.hpp"
#include "cli/command/io/write_dot.hpp"
#include "cli/command/rewrite.hpp"
#include "cli/command/refactor.hpp"
#include "cli/command/balance.hpp"
#include "cli/command/lut_opt.hpp"
#include "cli/command/map_fpga.hpp"
#include "cli/command/cleanup.hpp"
#include "cli/command/print_stats.hpp"
#include "cli/command/history.hpp"
namespace alice {
class xslot_command : public command {
public:
    explicit xslot_command(const environment::ptr &env) : command(env, "observe a history slot") {
        add_option("--index, -i", index, "slot");
        add_option("--filename, -f", filename, "file");
    }
protected:
    void execute() {
        auto& s = store<iFPGA::aig_network>();
        if (s.empty() || index < 0 || index + 1 >= static_cast<int>(s.size())) return;
        iFPGA::write_aiger(s[index], filename);
    }
private:
    int index = 0;
    std::string filename;
};
ALICE_ADD_COMMAND(xslot, "I/O");
}
ALICE_MAIN(imap)
