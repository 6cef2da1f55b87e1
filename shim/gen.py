#!/usr/bin/env python3
"""Generates ROS message headers (layouts of the public packages, written down
below) and dynamic_reconfigure headers (from /repo's cfg files) into <out>.

  gen.py REPO OUT"""
import os, re, sys, types, hashlib

REPO, OUT = sys.argv[1], sys.argv[2]

MSGS = {}


def pkg(name, text):
    cur = None
    for line in text.splitlines():
        line = line.split("#")[0].rstrip()
        if not line.strip():
            continue
        if not line.startswith(" "):
            cur = name + "/" + line.strip()
            MSGS[cur] = []
        else:
            MSGS[cur].append(line.strip())


pkg("std_msgs", """
Empty
Bool
 bool data
String
 string data
Int32
 int32 data
UInt32
 uint32 data
Int64
 int64 data
Float32
 float32 data
Float64
 float64 data
Header
 uint32 seq
 time stamp
 string frame_id
ColorRGBA
 float32 r
 float32 g
 float32 b
 float32 a
MultiArrayDimension
 string label
 uint32 size
 uint32 stride
MultiArrayLayout
 MultiArrayDimension[] dim
 uint32 data_offset
Float32MultiArray
 MultiArrayLayout layout
 float32[] data
""")
pkg("geometry_msgs", """
Vector3
 float64 x
 float64 y
 float64 z
Vector3Stamped
 std_msgs/Header header
 Vector3 vector
Point
 float64 x
 float64 y
 float64 z
PointStamped
 std_msgs/Header header
 Point point
Point32
 float32 x
 float32 y
 float32 z
Quaternion
 float64 x
 float64 y
 float64 z
 float64 w
QuaternionStamped
 std_msgs/Header header
 Quaternion quaternion
Pose
 Point position
 Quaternion orientation
PoseStamped
 std_msgs/Header header
 Pose pose
Pose2D
 float64 x
 float64 y
 float64 theta
PoseArray
 std_msgs/Header header
 Pose[] poses
PoseWithCovariance
 Pose pose
 float64[36] covariance
PoseWithCovarianceStamped
 std_msgs/Header header
 PoseWithCovariance pose
Twist
 Vector3 linear
 Vector3 angular
TwistStamped
 std_msgs/Header header
 Twist twist
TwistWithCovariance
 Twist twist
 float64[36] covariance
Transform
 Vector3 translation
 Quaternion rotation
TransformStamped
 std_msgs/Header header
 string child_frame_id
 Transform transform
Polygon
 Point32[] points
PolygonStamped
 std_msgs/Header header
 Polygon polygon
""")
pkg("nav_msgs", """
MapMetaData
 time map_load_time
 float32 resolution
 uint32 width
 uint32 height
 geometry_msgs/Pose origin
OccupancyGrid
 std_msgs/Header header
 MapMetaData info
 int8[] data
GridCells
 std_msgs/Header header
 float32 cell_width
 float32 cell_height
 geometry_msgs/Point[] cells
Path
 std_msgs/Header header
 geometry_msgs/PoseStamped[] poses
Odometry
 std_msgs/Header header
 string child_frame_id
 geometry_msgs/PoseWithCovariance pose
 geometry_msgs/TwistWithCovariance twist
""")
pkg("sensor_msgs", """
ChannelFloat32
 string name
 float32[] values
PointCloud
 std_msgs/Header header
 geometry_msgs/Point32[] points
 ChannelFloat32[] channels
PointField
 uint8 INT8=1
 uint8 UINT8=2
 uint8 INT16=3
 uint8 UINT16=4
 uint8 INT32=5
 uint8 UINT32=6
 uint8 FLOAT32=7
 uint8 FLOAT64=8
 string name
 uint32 offset
 uint8 datatype
 uint32 count
PointCloud2
 std_msgs/Header header
 uint32 height
 uint32 width
 PointField[] fields
 bool is_bigendian
 uint32 point_step
 uint32 row_step
 uint8[] data
 bool is_dense
LaserScan
 std_msgs/Header header
 float32 angle_min
 float32 angle_max
 float32 angle_increment
 float32 time_increment
 float32 scan_time
 float32 range_min
 float32 range_max
 float32[] ranges
 float32[] intensities
Imu
 std_msgs/Header header
 geometry_msgs/Quaternion orientation
 float64[9] orientation_covariance
 geometry_msgs/Vector3 angular_velocity
 float64[9] angular_velocity_covariance
 geometry_msgs/Vector3 linear_acceleration
 float64[9] linear_acceleration_covariance
JointState
 std_msgs/Header header
 string[] name
 float64[] position
 float64[] velocity
 float64[] effort
Joy
 std_msgs/Header header
 float32[] axes
 int32[] buttons
""")
pkg("trajectory_msgs", """
JointTrajectoryPoint
 float64[] positions
 float64[] velocities
 float64[] accelerations
 float64[] effort
 duration time_from_start
JointTrajectory
 std_msgs/Header header
 string[] joint_names
 JointTrajectoryPoint[] points
""")
pkg("diagnostic_msgs", """
KeyValue
 string key
 string value
DiagnosticStatus
 int8 OK=0
 int8 WARN=1
 int8 ERROR=2
 int8 STALE=3
 int8 level
 string name
 string message
 string hardware_id
 KeyValue[] values
DiagnosticArray
 std_msgs/Header header
 DiagnosticStatus[] status
""")
pkg("actionlib_msgs", """
GoalID
 time stamp
 string id
GoalStatus
 uint8 PENDING=0
 uint8 ACTIVE=1
 uint8 PREEMPTED=2
 uint8 SUCCEEDED=3
 uint8 ABORTED=4
 uint8 REJECTED=5
 uint8 PREEMPTING=6
 uint8 RECALLING=7
 uint8 RECALLED=8
 uint8 LOST=9
 GoalID goal_id
 uint8 status
 string text
GoalStatusArray
 std_msgs/Header header
 GoalStatus[] status_list
""")
pkg("move_base_msgs", """
MoveBaseGoal
 geometry_msgs/PoseStamped target_pose
MoveBaseResult
MoveBaseFeedback
 geometry_msgs/PoseStamped base_position
""")
pkg("visualization_msgs", """
MenuEntry
 uint8 FEEDBACK=0
 uint8 ROSRUN=1
 uint8 ROSLAUNCH=2
 uint32 id
 uint32 parent_id
 string title
 string command
 uint8 command_type
Marker
 uint8 ARROW=0
 uint8 CUBE=1
 uint8 SPHERE=2
 uint8 CYLINDER=3
 uint8 LINE_STRIP=4
 uint8 LINE_LIST=5
 uint8 TEXT_VIEW_FACING=9
 uint8 ADD=0
 uint8 MODIFY=0
 uint8 DELETE=2
 uint8 DELETEALL=3
 std_msgs/Header header
 string ns
 int32 id
 int32 type
 int32 action
 geometry_msgs/Pose pose
 geometry_msgs/Vector3 scale
 std_msgs/ColorRGBA color
 duration lifetime
 bool frame_locked
 geometry_msgs/Point[] points
 std_msgs/ColorRGBA[] colors
 string text
InteractiveMarkerControl
 uint8 INHERIT=0
 uint8 FIXED=1
 uint8 VIEW_FACING=2
 uint8 NONE=0
 uint8 MENU=1
 uint8 BUTTON=2
 uint8 MOVE_AXIS=3
 uint8 MOVE_PLANE=4
 uint8 ROTATE_AXIS=5
 uint8 MOVE_ROTATE=6
 uint8 MOVE_3D=7
 uint8 ROTATE_3D=8
 uint8 MOVE_ROTATE_3D=9
 string name
 geometry_msgs/Quaternion orientation
 uint8 orientation_mode
 uint8 interaction_mode
 bool always_visible
 Marker[] markers
 bool independent_marker_orientation
 string description
InteractiveMarker
 std_msgs/Header header
 geometry_msgs/Pose pose
 string name
 string description
 float32 scale
 MenuEntry[] menu_entries
 InteractiveMarkerControl[] controls
InteractiveMarkerPose
 std_msgs/Header header
 geometry_msgs/Pose pose
 string name
InteractiveMarkerUpdate
 uint8 KEEP_ALIVE=0
 uint8 UPDATE=1
 string server_id
 uint64 seq_num
 uint8 type
 InteractiveMarker[] markers
 InteractiveMarkerPose[] poses
 string[] erases
InteractiveMarkerFeedback
 uint8 KEEP_ALIVE=0
 uint8 POSE_UPDATE=1
 uint8 MENU_SELECT=2
 uint8 BUTTON_CLICK=3
 uint8 MOUSE_DOWN=4
 uint8 MOUSE_UP=5
 std_msgs/Header header
 string client_id
 string marker_name
 string control_name
 uint8 event_type
 geometry_msgs/Pose pose
 uint32 menu_entry_id
 geometry_msgs/Point mouse_point
 bool mouse_point_valid
""")
pkg("costmap_cspace_msgs", """
MapMetaData3D
 time map_load_time
 float32 linear_resolution
 float32 angular_resolution
 uint32 width
 uint32 height
 uint32 angle
 geometry_msgs/Pose origin
CSpace3D
 std_msgs/Header header
 MapMetaData3D info
 int8[] data
CSpace3DUpdate
 std_msgs/Header header
 uint32 x
 uint32 y
 uint32 yaw
 uint32 width
 uint32 height
 uint32 angle
 int8[] data
""")
pkg("planner_cspace_msgs", """
PlannerStatus
 uint8 DONE=0
 uint8 DOING=1
 uint8 FINISHING=2
 uint8 GOING_WELL=0
 uint8 IN_ROCK=1
 uint8 PATH_NOT_FOUND=2
 uint8 DATA_MISSING=3
 uint8 INTERNAL_ERROR=4
 std_msgs/Header header
 uint8 status
 uint8 error
MoveWithToleranceGoal
 geometry_msgs/PoseStamped target_pose
 float32 goal_tolerance_lin
 float32 goal_tolerance_ang
 float32 goal_tolerance_ang_finish
 bool continuous_movement_mode
MoveWithToleranceResult
MoveWithToleranceFeedback
 geometry_msgs/PoseStamped base_position
""")
pkg("trajectory_tracker_msgs", """
PoseStampedWithVelocity
 std_msgs/Header header
 geometry_msgs/Pose pose
 geometry_msgs/Vector3 linear_velocity
PathWithVelocity
 std_msgs/Header header
 PoseStampedWithVelocity[] poses
TrajectoryTrackerStatus
 int32 NO_PATH=0
 int32 FAR_FROM_PATH=1
 int32 FOLLOWING=2
 int32 GOAL=3
 std_msgs/Header header
 std_msgs/Header path_header
 int32 status
 float32 distance_remains
 float32 angle_remains
TrajectoryServerStatus
 std_msgs/Header header
 string filename
 int32 id
""")
pkg("safety_limiter_msgs", """
SafetyLimiterStatus
 std_msgs/Header header
 float32 limit_ratio
 bool is_cloud_available
 bool has_watchdog_timed_out
 time stuck_started_since
""")
pkg("map_organizer_msgs", """
OccupancyGridArray
 nav_msgs/OccupancyGrid[] maps
""")
pkg("neonavigation_metrics_msgs", """
Metric
 string name
 float64 value
 string unit
 string[] tags
Metrics
 std_msgs/Header header
 Metric[] data
""")
pkg("map_msgs", """
OccupancyGridUpdate
 std_msgs/Header header
 int32 x
 int32 y
 uint32 width
 uint32 height
 int8[] data
""")

SRVS = {
    "std_srvs/Empty": ([], []),
    "std_srvs/SetBool": (["bool data"], ["bool success", "string message"]),
    "std_srvs/Trigger": ([], ["bool success", "string message"]),
    "nav_msgs/GetMap": ([], ["OccupancyGrid map"]),
    "nav_msgs/GetPlan": (["geometry_msgs/PoseStamped start", "geometry_msgs/PoseStamped goal", "float32 tolerance"], ["Path plan"]),
    "trajectory_tracker_msgs/ChangePath": (["string filename", "int32 id"], ["bool success"]),
}
ACTIONS = {"move_base_msgs": ["MoveBase"], "planner_cspace_msgs": ["MoveWithTolerance"]}

PRIM = {"bool": "uint8_t", "int8": "int8_t", "uint8": "uint8_t", "int16": "int16_t", "uint16": "uint16_t", "int32": "int32_t",
        "uint32": "uint32_t", "int64": "int64_t", "uint64": "uint64_t", "float32": "float", "float64": "double",
        "string": "std::string", "time": "ros::Time", "duration": "ros::Duration"}


def write(path, text):
    p = os.path.join(OUT, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == text:
        return
    tmp = p + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, p)


def emit(package, name, fields):
    inc, consts, members, inits, nexts = set(), [], [], [], []
    for f in fields:
        m = re.match(r"(\w+) (\w+)=(-?\w+)$", f)
        if m:
            consts.append("  enum { %s = %s };" % (m.group(2), m.group(3)))
            continue
        t, n = f.split()
        arr = re.match(r"(.*)\[(\d*)\]$", t)
        base = arr.group(1) if arr else t
        if base in PRIM:
            ct = PRIM[base]
            prim = True
        else:
            full = base if "/" in base else package + "/" + base
            inc.add(full)
            ct = "::" + full.replace("/", "::")
            prim = False
        if arr and arr.group(2):
            mt = "boost::array<%s, %s>" % (ct, arr.group(2))
            inits.append("%s()" % n if False else None)
            members.append("  %s %s;" % (mt, n))
            inits[-1] = "fill:" + n
        elif arr:
            members.append("  std::vector<%s> %s;" % (ct, n))
        else:
            members.append("  %s %s;" % (ct, n))
            if prim and base not in ("string", "time", "duration"):
                inits.append("%s(0)" % n)
        nexts.append(n)
    simple = [i for i in inits if not i.startswith("fill:")]
    fills = ["    %s.assign(0);" % i[5:] for i in inits if i.startswith("fill:")]
    guard = (package + "_" + name).upper() + "_SHIM_H"
    o = ["#ifndef " + guard, "#define " + guard, "#include <ros/msg_base.h>"]
    o += ["#include <%s.h>" % i for i in sorted(inc)]
    o += ["namespace %s" % package, "{", "struct %s" % name, "{"]
    o += ["  typedef boost::shared_ptr<%s> Ptr;" % name, "  typedef boost::shared_ptr<%s const> ConstPtr;" % name]
    o += consts + members
    o += ["  %s()%s" % (name, " : " + ", ".join(simple) if simple else ""), "  {"] + fills + ["  }"]
    o += ["  template <class S, class M>", "  static void allFields(S& s, M& m)", "  {"]
    o += ["    s.next(m.%s);" % n for n in nexts] + ["    (void)s;", "    (void)m;", "  }"]
    o += ["  static const char* dataType() { return \"%s/%s\"; }" % (package, name), "};"]
    o += ["typedef boost::shared_ptr<%s> %sPtr;" % (name, name), "typedef boost::shared_ptr<%s const> %sConstPtr;" % (name, name)]
    eq = " && ".join("a.%s == b.%s" % (n, n) for n in nexts) or "true"
    o += ["inline bool operator==(const %s& a, const %s& b) { (void)a; (void)b; return %s; }" % (name, name, eq),
          "inline bool operator!=(const %s& a, const %s& b) { return !(a == b); }" % (name, name)]
    o += ["}", "#endif", ""]
    write("%s/%s.h" % (package, name), "\n".join(o))


for full, fields in MSGS.items():
    p, n = full.split("/")
    emit(p, n, fields)
for full, (req, res) in SRVS.items():
    p, n = full.split("/")
    emit(p, n + "Request", req)
    emit(p, n + "Response", res)
    write(full + ".h", """#ifndef {g}
#define {g}
#include <{f}Request.h>
#include <{f}Response.h>
namespace {p}
{{
struct {n}
{{
  typedef {n}Request Request;
  typedef {n}Response Response;
  Request request;
  Response response;
}};
}}
#endif
""".format(g=full.replace("/", "_").upper() + "_SRV_H", f=full, p=p, n=n))
for p, names in ACTIONS.items():
    for n in names:
        write("%s/%sAction.h" % (p, n), """#ifndef {g}
#define {g}
#include <{p}/{n}Goal.h>
#include <{p}/{n}Result.h>
#include <{p}/{n}Feedback.h>
namespace {p}
{{
struct {n}Action
{{
  typedef {n}Goal Goal;
  typedef {n}Result Result;
  typedef {n}Feedback Feedback;
}};
}}
#endif
""".format(g=(p + n).upper() + "_ACTION_H", p=p, n=n))


# dynamic_reconfigure
class Gen:
    def __init__(self):
        self.params = []

    def add(self, name, t, level=0, description="", default=None, min=None, max=None, edit_method=""):
        self.params.append((name, t, level, default, min, max))

    def enum(self, *a, **k):
        return ""

    def const(self, *a, **k):
        return ""

    def add_group(self, *a, **k):
        return self

    def generate(self, package, node, name):
        CT = {"double": "double", "int": "int", "bool": "bool", "str": "std::string"}

        def lit(t, v):
            if t == "bool":
                return "true" if v else "false"
            if t == "str":
                return '"%s"' % (v or "")
            return repr(float(v)) if t == "double" else str(int(v or 0))
        o = ["#ifndef %s_CONFIG_H" % name.upper(), "#define %s_CONFIG_H" % name.upper(), "#include <string>",
             "namespace %s" % package, "{", "struct %sConfig" % name, "{"]
        for n, t, lv, d, lo, hi in self.params:
            o.append("  %s %s = %s;" % (CT[t], n, lit(t, d)))
        o += ["  template <class F>", "  void forEachParam(F f)", "  {"]
        for n, t, lv, d, lo, hi in self.params:
            if t in ("double", "int"):
                o.append("    f(\"%s\", %s, static_cast<%s>(%s), static_cast<%s>(%s));" % (
                    n, n, CT[t], "-1e300" if lo is None and t == "double" else "-2000000000" if lo is None else repr(lo),
                    CT[t], "1e300" if hi is None and t == "double" else "2000000000" if hi is None else repr(hi)))
            else:
                o.append("    f(\"%s\", %s);" % (n, n))
        o += ["  }", "};", "}", "#endif", ""]
        write("%s/%sConfig.h" % (package, name), "\n".join(o))
        return 0


mod = types.ModuleType("dynamic_reconfigure.parameter_generator_catkin")
mod.ParameterGenerator = Gen
mod.double_t, mod.int_t, mod.bool_t, mod.str_t = "double", "int", "bool", "str"
sys.modules["dynamic_reconfigure"] = types.ModuleType("dynamic_reconfigure")
sys.modules["dynamic_reconfigure.parameter_generator_catkin"] = mod
for cfg in ["planner_cspace/cfg/Planner3D.cfg", "safety_limiter/cfg/SafetyLimiter.cfg", "trajectory_tracker/cfg/TrajectoryTracker.cfg"]:
    path = os.path.join(REPO, cfg)
    if os.path.exists(path):
        try:
            exec(compile(open(path).read(), path, "exec"), {"__name__": "__main__"})
        except SystemExit:
            pass
