import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,obs=None,level="exploration",tech="",note=""):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None),
      _tech=tech,_note=note))
N="src/network.rs"; RI="src/robot/robot_impl.rs"; R="src/robot.rs"; CL="src/robot/control_loop.rs"
p("C01","Every call returns the outcome of its own request",
 "A robot command returns only when the complete response carrying its own request id has arrived, and its result reflects that response: success for a success status, a command exception naming the reported reason otherwise, and the returned data exactly as sent by the robot. This holds for every way the byte stream is cut into segments, for responses that arrive together, and for responses with other ids before or after it.",
 ["inputs","schedules","histories"],"all robot commands, all documented status values, all segmentations and interleavings with foreign responses",
 "The tests answer one request at a time with a whole message; neither cuts inside header or body, nor coalesced and foreign responses, nor every status are sampled.",
 [N,R,RI,"src/robot/service_types.rs"],[("response map keyed by command id, header/body reassembly","Network::tcp_blocking_receive_response, tcp_read_from_buffer in src/network.rs"),("status to exception mapping","handle_*_status functions in src/robot.rs")],["TCP stream and return values"])
p("C02","Robot requests carry exactly the caller's arguments",
 "Every configuration call of the robot sends exactly one request with the right command code, a correct size, an id larger than all earlier ones, and a payload that is bit for bit the caller's arguments in protocol order; the default behaviour call sends its three documented settings and stops at the first rejected one.",
 ["inputs","histories"],"all argument values including signed zeros, denormals and extremes; call sequences of any length",
 "Tests check a handful of requests with fixed values; swapped or truncated fields that happen to be equal in the samples pass.",
 [R,RI,N,"src/robot/service_types.rs"],[("request structs and serialization","src/robot/service_types.rs"),("argument order","Robot::set_* in src/robot.rs")],["TCP requests"])
p("C03","Gripper commands and states are transmitted faithfully",
 "Every gripper call sends exactly one request with exactly its arguments, returns true for success and false for the unsuccessful status, raises a command exception that names the reason for the fail and abort statuses, and is unaffected by segmentation or foreign responses. Reading the gripper state returns, bit for bit, a state that the gripper sent after the call, never an older one that was still queued.",
 ["inputs","schedules","histories"],"all gripper commands, argument values, statuses, stream segmentations, state histories",
 "The tests cover a few commands with success responses; they do not sample every status, segmentation and stale or late gripper states.",
 ["src/gripper.rs","src/gripper/types.rs","src/gripper/gripper_state.rs",N],[("status mapping","handle_response_status in src/gripper.rs"),("state decoding","GripperState conversion in src/gripper/gripper_state.rs")],["gripper TCP and UDP traffic"])
p("C04","Connection handshake announces and checks protocol versions",
 "Connecting, by address or host name, announces the library's protocol version (5 for the robot, 3 for the gripper) and the UDP port on which states are really received; it succeeds exactly if the endpoint answers with the compatible status, then reports the endpoint's version, and otherwise fails with an incompatible-version error that carries both versions. An unresolvable or refused address is reported as a network error.",
 ["inputs","schedules","configurations"],"all reported versions and statuses, all segmentations of the response, early and late first states",
 "Tests use one compatible and one incompatible version, delivered in one piece.",
 [RI,"src/gripper.rs",N],[("connect","connect functions in src/robot/robot_impl.rs and src/gripper.rs")],["handshake traffic, constructor result"])
p("C05","Robot states are decoded completely and faithfully",
 "Every state that is handed to the user has exactly the field values, mode, time, current errors and last motion errors of one datagram of the robot, bit for bit, and its error lists are displayed with exactly the names of the errors that are set.",
 ["inputs"],"all well formed state datagrams: every error bit in both lists, every mode, arbitrary floating point values, 64 bit message ids",
 "Tests decode single states that are mostly zero; a swapped pair of fields or error bits is invisible there.",
 ["src/robot/robot_state.rs","src/robot/types.rs","src/robot/error.rs","src/robot/errors.rs"],[("field by field conversion","From<RobotStateIntern> for RobotState"),("bit to error mapping","src/robot/errors.rs")],["state UDP datagrams, RobotState values"])
p("C06","States handed out are genuine and strictly newer",
 "Whatever datagrams arrive from the robot (duplicates, reordered, lost, bursts, wrong sizes), every state a user receives is one the robot sent, unmixed, with a larger message id than any state received before; a single read returns a state that arrived after the call, and a continuous read begins with the newest one that was pending. A datagram of the wrong size is never taken for a state, and at worst causes a network error after which reading works again.",
 ["histories","fault_sequences","inputs"],"all datagram histories between and during reads",
 "The mock of the tests sends an ideal stream of states; no reordering, duplication, loss or malformed datagram occurs.",
 [RI,N],[("message id comparison","update_state / receive_robot_state in src/robot/robot_impl.rs"),("non-blocking drain of the socket","udp_receive in src/network.rs")],["state UDP datagrams, read results"])
p("C07","A lost connection is reported as a network error",
 "If the robot or gripper disappears at any point (connection refused, closed or reset, in any direction, after any number of bytes of a response, or vanishing without a trace while a response is awaited, or the state stream stops for longer than the timeout), the operation in progress and every later one end with a network exception; no operation hangs, panics or reports success.",
 ["crash_points","fault_sequences"],"every operation, every byte position of the response, every phase of a motion, model download and handshake; orderly close, reset, half close, silence",
 "The tests never close or silence a connection.",
 [N,RI,"src/gripper.rs"],[("error propagation of reads and polls","src/network.rs"),("timeouts","src/network.rs, cancel_motion in src/robot/robot_impl.rs")],["return values after injected faults"])
p("C08","A motion follows the session protocol",
 "Every control call first sends one Move request that names its motion generator, the chosen controller and the default deviations, sends commands only after the robot entered the requested mode, sends one command per cycle to where the states come from, sets the finished flag from the cycle in which a callback finished until the robot has stopped, and returns success only after the final success response; it then sends nothing more.",
 ["schedules","inputs","configurations"],"nine motion/torque interfaces, all controller, limiter and filter choices, motion lengths, delays of the robot in entering and leaving the motion, either order of final response and idle state",
 "The tests run two or three interfaces in a single schedule.",
 [CL,RI,R],[("start_motion / finish_motion","src/robot/robot_impl.rs"),("control loop","src/robot/control_loop.rs")],["order of TCP and UDP events, callbacks"])
p("C09","Callbacks and commands belong to the same robot state",
 "In every cycle of a motion the motion and torque callbacks are called at most once, both with the same, newest received and unaltered state, with a time step equal to the difference of its message id to the previous one in milliseconds (zero in the first cycle); the command sent carries the message id of exactly this state and the values computed for it, and no state is answered twice or out of order. Callbacks are not called again once finished.",
 ["histories","schedules"],"all interfaces and state histories with packet loss, jitter, duplicates, bursts",
 "The tests use a stream without loss and do not relate each command to the state it answers.",
 [CL,RI],[("spin_control / spin_motion","src/robot/control_loop.rs"),("send_robot_command with message id","src/robot/robot_impl.rs")],["callback arguments, UDP commands"])
p("C10","Aborted and rejected motions end with the right exception",
 "If the robot rejects a motion, aborts it before it begins, leaves it in the middle, or answers the finished motion with an error, the call ends with an exception naming the reported reason (a command exception for a rejected start, otherwise a control exception; for a reflex with the list of the motion errors the robot reported), never with success or a panic. After an abort no further command is sent or callback called, the motion is stopped once, and the call returns only when the robot no longer reports the motion; a motion is not requested while the robot reports another one, and afterwards the robot object remains usable.",
 ["fault_sequences","schedules","histories"],"all error statuses, abort points, robot modes, orders of response and state, stop results, interfaces",
 "The tests contain a single reflex scenario.",
 [RI,CL,"src/exception.rs"],[("motion status handling","handle_motion_response / create_control_exception in src/robot/robot_impl.rs"),("cancel_motion","src/robot/robot_impl.rs")],["exceptions, TCP and UDP events"])
p("C11","The control log holds the last states and commands in order",
 "A control exception carries the log of the motion that failed: exactly the last commands of that motion, at most as many as the configured log size (default 50), oldest first, each with the values of the command, including the elbow, exactly as sent and the state received next. Earlier motions leave no records, and every log size including zero works; after a reflex the message states the command success rate and the number of lost packets of the last sample of the log.",
 ["inputs","histories"],"all log sizes, motion lengths, interfaces, abort kinds, previous motions",
 "The test of the logger looks at the number of records only.",
 ["src/robot/logger.rs",RI],[("ring buffers","Logger::log / flush in src/robot/logger.rs")],["log in the exception versus wire traffic"])
p("C12","Invalid command values are never transmitted",
 "A callback result with a non-finite number, a pose that is not a homogeneous transformation (axes of unit length, orthogonal and right-handed), or an elbow whose sign is not plus or minus one never reaches the robot, with any combination of limiter and filter: no command is sent for that cycle and the control call does not succeed (only a filter may bring a finite pose into shape instead). Every command that is sent is finite with a valid pose and elbow.",
 ["inputs","configurations"],"each position of each command type, NaN and infinities, any cycle, all limiter/filter settings",
 "Tests do not inject invalid values into control loops.",
 [CL,"src/robot/control_tools.rs","src/robot/motion_generator_traits.rs"],[("check_* functions","src/robot/control_tools.rs"),("convert_motion","src/robot/control_loop.rs")],["UDP commands"])
p("C13","Joint and torque rate limits hold for every request",
 "With rate limiting on (the default), whatever the callbacks request, consecutive joint position and velocity commands never exceed the joint velocity, acceleration and jerk limits, and torque commands never exceed the torque rate limit, relative to the last commanded values the robot reports; requests within the limits are passed on unchanged.",
 ["inputs","histories"],"all request signals (steps, bang-bang, noise, huge values, smooth), all reported last commands, all joints",
 "Unit tests of the limiter sample a few values of single functions and never run it in the loop.",
 ["src/robot/rate_limiting.rs",CL],[("limit_rate_position, limit_rate_joint_velocities, limit_rate_torques","src/robot/rate_limiting.rs"),("applied in convert_motion and convert_torque","src/robot/control_loop.rs")],["UDP commands versus reported state"])
p("C14","Cartesian and elbow rate limits hold for every request",
 "With rate limiting on (the default), whatever the callbacks request, Cartesian pose and velocity commands never exceed the translational and rotational velocity and acceleration limits and elbow commands never exceed the elbow velocity, acceleration and jerk limits, relative to the last commanded values the robot reports; the Cartesian jerk is limited unless that would exceed the velocity limit. Requests within the limits are passed on unchanged, for every orientation including rotations by 180 degrees and tiny rotations.",
 ["inputs","histories"],"all request signals, all reported last commands and orientations, with and without elbow",
 "Unit tests sample a few poses of single functions and never run the limiter in the loop.",
 ["src/robot/rate_limiting.rs",CL],[("limit_rate_cartesian_pose, limit_rate_cartesian_velocity, limit_rate_position","src/robot/rate_limiting.rs"),("applied in convert_motion","src/robot/motion_generator_traits.rs, src/robot/control_types.rs")],["UDP commands versus reported state"])
p("C15","Low-pass filters are exact first order filters",
 "The low-pass filters implement the first order filter with gain dt/(dt+1/(2 pi f)): the scalar output is the weighted mean of input and last output and lies between them, the pose filter interpolates translation linearly and rotation along the shortest arc and always yields a valid pose, and invalid parameters or non-finite input are refused by a panic.",
 ["inputs"],"all finite values, sample times, cutoff frequencies, all pairs of poses including opposite and equal orientations",
 "Unit tests sample a few values.",
 ["src/robot/low_pass_filter.rs"],[("low_pass_filter, cartesian_low_pass_filter","src/robot/low_pass_filter.rs")],["return values"])
p("C16","Control loops filter every command type before limiting",
 "With a cutoff frequency below 1000 Hz (100 Hz by default) every command type, including elbow and torques, is low-pass filtered with that cutoff towards the last commanded value the robot reports, before rate limiting is applied; from 1000 Hz on no filter is applied.",
 ["inputs","configurations"],"all interfaces, cutoff frequencies, limiter settings, states and requests",
 "No test observes the values sent with the filter on.",
 [CL,"src/robot/control_types.rs","src/robot/motion_generator_traits.rs"],[("convert_motion, convert_torque","src/robot")],["UDP commands versus reported state"])
p("C17","Without limiter and filter commands are sent bit for bit",
 "With rate limiting off and a cutoff of at least 1000 Hz, the values of every command on the wire, including elbow, validity flag, torques and finished flag, are bit for bit those of the callback, whatever the state contains; all other fields are zero.",
 ["inputs","configurations"],"all interfaces, finite values including extremes, elbow given or not, any state content",
 "Tests compare single constant commands at best.",
 [CL,"src/robot/control_types.rs",RI],[("convert_motion","src/robot/motion_generator_traits.rs"),("command assembly","src/robot/robot_impl.rs")],["UDP commands"])
p("C18","The joint motion generator plans synchronised admissible motions",
 "For every start, goal and speed factor the motion generator starts at the commanded position, ends exactly at the goal, moves every joint monotonically between the two, respects its velocity and acceleration limits scaled by the speed factor, synchronises all joints, takes as long as the slowest joint needs, and holds the goal when it is asked again afterwards.",
 ["inputs","histories"],"all speed factors in (0,1], starts, goals including no motion and tiny motions, sampling intervals",
 "The test of the generator compares one recorded trajectory.",
 ["src/utils.rs"],[("MotionGenerator","src/utils.rs")],["positions returned per call"])
p("C19","Pose conversions preserve the pose",
 "Converting between the column-major array and the isometry representation preserves translation and rotation for every pose, including rotations by 180 degrees about any axis, in both directions and through the pose command type; a matrix that is only nearly a rotation still yields a valid isometry close to it.",
 ["inputs"],"all rotations and translations",
 "Unit tests convert single poses.",
 ["src/utils.rs","src/robot/control_types.rs"],[("array_to_isometry and conversions into CartesianPose","src/utils.rs, src/robot/control_types.rs")],["return values"])
p("C20","Model functions pass the right data to the dynamics library",
 "Every model function passes the caller's or the state's values bit for bit to the right function of the dynamics library for the requested frame and returns its result bit for bit; the variants that take a robot state use that state's configuration, total load and transformations. A library that lacks any required function is refused with a model exception.",
 ["inputs","configurations"],"all frames, all argument values, all missing symbols",
 "Tests cannot load the proprietary library and never call a model function.",
 ["src/model.rs","src/model/model_library.rs"],[("symbol lookup and FFI calls","src/model/model_library.rs"),("argument forwarding","src/model.rs")],["arguments seen by an instrumented dynamics library"])
p("C21","The model is downloaded, stored and reused faithfully",
 "Loading the model requests the library for this platform, loads exactly the bytes the robot sent however they are segmented, keeps the file exactly if persistence was requested, and reuses a stored file without a download; an error status, an unusable library or one that cannot be written completely yields a model exception, leaves nothing stored, and the robot stays usable. Several robots that load different models, at the same time or one after another, each get their own.",
 ["inputs","histories","schedules"],"library sizes, segmentations, error statuses, write errors, persistence histories, several robots",
 "Tests do not download a model.",
 ["src/model/library_downloader.rs","src/robot.rs","src/model.rs"],[("download and temporary file","src/model/library_downloader.rs, load_model in src/robot.rs")],["TCP traffic, file system, model results"])
p("C22","Realtime requirements are enforced before a motion",
 "With realtime enforcement (the default) a control call on a system without a realtime kernel, or where the realtime priority or memory locking is refused, fails with a realtime exception before any motion is requested and before any callback runs; where everything is available the callbacks run with FIFO realtime priority (maximum or one below) and locked memory. With enforcement switched off motions run regardless.",
 ["configurations","fault_sequences"],"all interfaces, configurations, combinations of missing facilities",
 "The tests always switch enforcement off.",
 [CL,"src/robot/control_tools.rs",R],[("realtime checks","ControlLoop::new in src/robot/control_loop.rs, src/robot/control_tools.rs")],["system calls through a preloaded stand-in, wire traffic"])
p("C23","One robot object works through any sequence of operations",
 "After any sequence of commands, reads, finished, rejected, aborted and timed out motions on one robot object, every further operation behaves as on a fresh connection; late responses to earlier motions affect nothing.",
 ["histories","fault_sequences"],"sequences of operations with faults in between",
 "Each test performs one operation per connection.",
 [RI,N,CL],[("state kept between calls","RobotImplementation in src/robot/robot_impl.rs, Network in src/network.rs")],["wire traffic and results"])
p("C24","Total load in the state combines end effector and load",
 "In every state the total mass, centre of mass and inertia are those of the rigid body composed of the reported end effector and load: masses add, the centre of mass is the weighted mean, and inertias add with the parallel axis theorem; zero masses do not yield invalid numbers.",
 ["inputs"],"all masses including zero, centres of mass and inertia tensors",
 "Unit tests sample a few loads.",
 ["src/robot/robot_state.rs","src/model/calculations.rs","src/utils.rs"],[("combine_center_of_mass, combine_inertia_tensor","src")],["RobotState values"])
p("C25","Built-in joint motion reaches its goal within the limits",
 "The built-in joint motion drives the robot from its commanded position to the goal: its commands start without a jump, stay between start and goal, respect the speed factor and the joint limits, end at the goal to within numerical tolerance and take the planned time.",
 ["inputs","histories"],"all starts, goals and speed factors",
 "No test runs the complete motion.",
 [R,"src/utils.rs",CL],[("joint_motion","src/robot.rs")],["UDP commands"])
p("C26","No memory error, whatever arrives",
 "Whatever bytes the robot or gripper delivers (datagrams and responses of any content and size, cut anywhere), and in whatever order operations are called and robot, gripper and model objects are created, used, moved between threads and dropped, the library never reads or writes outside its buffers, uses released memory or unloaded code, overflows the stack or aborts the process: malformed input at worst ends in an exception or a panic that unwinds. The dynamics library is only given buffers of the sizes it reads and writes, and it stays loaded while a model that uses it exists.",
 ["inputs","histories","fault_sequences"],"all byte contents and sizes of datagrams, response headers and bodies at every stage (handshake, command, download, read, motion); all orders of creating, moving and dropping models",
 "The tests deliver well formed messages, load no model, and run without a memory checker.",
 [N,"src/model/model_library.rs","src/model.rs",RI,"src/gripper.rs"],[("calls into the dynamics library","unsafe blocks in src/model/model_library.rs"),("buffers sized by headers and datagrams","tcp_read_from_buffer, udp_receive in src/network.rs")],["AddressSanitizer reports, exit status of the process"])
p("C27","Sessions hold on to nothing they no longer need",
 "However long a session lasts, the memory a robot or gripper object holds does not grow with the number of commands, reads, states and control cycles, nor with the number of motions, whether they are finished, rejected or aborted by the robot (beyond the configured size of the log). Dropping a robot or gripper object closes its connection and releases its sockets, dropping a model unloads its library, and an attempt to connect or to load a model that fails leaves nothing open or loaded.",
 ["histories","fault_sequences"],"repeated rounds of commands with any status, reads, motions of all interfaces with any end, log sizes, model downloads, attempts to connect that fail at every stage",
 "Growth only shows over long sessions; the tests perform one operation per connection and count nothing.",
 [N,RI,"src/robot/logger.rs","src/gripper.rs","src/model.rs"],[("responses removed when delivered","received_responses in src/network.rs"),("bounded log","src/robot/logger.rs"),("ownership of sockets and libraries","Network, ModelLibrary")],["live heap bytes of the client thread, /proc/self/fd, /proc/self/maps, end of the TCP stream"])
p("C28","Signals do not disturb any operation",
 "If the process handles signals while an operation runs (timers, child processes, profilers, with or without automatic restart of system calls), however often they arrive, every operation of robot and gripper has exactly the outcome it has without them: no panic or error is caused, no response, state or command is lost or repeated, and a stopped state stream is still noticed after its timeout.",
 ["schedules","histories"],"signals at any point of any operation: commands, reads, handshakes, motions, aborts, timeouts, lost connections",
 "The tests handle no signals.",
 [N,RI,"src/gripper.rs"],[("waiting for sockets","poll_uninterrupted, tcp_read_from_buffer, udp_blocking_receive in src/network.rs")],["outcomes and wire traffic of the workloads of the other properties while signals hit the client threads"])
p("C29","Objects of several robots and grippers are independent",
 "A process may use any number of robot and gripper objects, also from one thread and from inside the callbacks of another object's motion or read: every operation sends, receives and returns exactly what it would if its object were the only one, with its own request ids, states, time steps, limits, filters, logs and errors.",
 ["histories","schedules"],"any combination and nesting of operations of several objects",
 "The tests use one object at a time.",
 [N,RI,R,CL,"src/gripper.rs"],[("per connection state","Network, RobotImpl and ControlLoop fields")],["outcomes and wire traffic of the workloads of the other properties, nested in each other on one thread"])
p("C30","Control cycles are prompt and waiting does not burn CPU time",
 "In a motion the command for a state leaves without any added delay (far within the robot's cycle time of one millisecond, whatever interface, limiter, filter, log size or unrelated traffic), a state reaches the callback of a continuous read and a call returns after its response without added delay, and an operation that waits for the robot or gripper sleeps until something arrives instead of using up CPU time.",
 ["schedules","configurations"],"all interfaces and options; waits of any length for responses, states, gripper responses",
 "The tests do not measure time.",
 [N,CL,RI],[("non-blocking TCP poll in the cycle","Network::tcp_receive_response"),("blocking waits","tcp_blocking_receive_response, udp_blocking_receive in src/network.rs")],["time between state and command at the robot; CPU time of the calling thread"])
NOTE={}
T={
"C01":"online oracle over a scripted TCP mock with hostile segmentation",
"C02":"wire monitor with independent codec, random arguments",
"C03":"wire monitor and status oracle on a mock gripper",
"C04":"handshake monitor on mock endpoints",
"C05":"differential decoding monitor (independent encoder)",
"C06":"stream monitor with injected duplicates, reordering, malformed datagrams",
"C07":"fault injection with outcome monitor",
"C08":"trace-specification monitor over recorded wire and callback events",
"C09":"trace monitor relating states, callbacks and commands",
"C10":"fault injection with trace and exception monitor",
"C11":"offline checker of logs against recorded wire traffic",
"C12":"wire monitor with injected invalid values",
"C13":"runtime bound monitor and reference limiter over hostile signals",
"C14":"runtime bound monitor and reference limiter over hostile signals",
"C15":"runtime monitor against an independent reference filter",
"C16":"wire monitor against an independent reference filter and limiter",
"C17":"bitwise wire monitor",
"C18":"trajectory monitor over complete sampled motions",
"C19":"runtime monitor against independent rotation arithmetic",
"C20":"instrumented dynamics library recording every call",
"C21":"wire and file monitor over load/store histories",
"C22":"fault injection through preloaded system-call stand-ins with trace monitor",
"C23":"session-history monitor with injected faults",
"C24":"runtime monitor against independent rigid-body arithmetic",
"C25":"trajectory monitor over end-to-end motions",
"C26":"AddressSanitizer over hostile and all other workloads, instrumented dynamics library",
"C27":"allocation, descriptor and mapping monitor over repeated sessions",
"C29":"shared-thread executor nesting calls of several objects under the monitors of other properties",
"C30":"latency monitor at the mock robot and CPU time monitor of the calling thread",
"C28":"signal storms on the client threads under the monitors of other properties",
}
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps({k:v for k,v in x.items() if not k.startswith('_')})+"\n")
COMMON="Executions of the real library code against an independent mock endpoint are judged by an oracle; the property held on every observed execution. Reach is bounded by the generated workload (see coverage in the evidence); nothing is proved."
m=dict(version=1,setup_cmd="./check.sh build",checks=[],not_applicable=[],notes="All checks run the unmodified public API of /repo (no hooks). See DESIGN.md. Known findings and repaired defects: KNOWN_FINDINGS.txt.")
for x in P:
    i=x['id']
    m['checks'].append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",technique=T[i],level="exploration",level_note=COMMON,evidence_file=f"evidence/{i}.json"))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
