"""The VRML97 node set as given by ISO/IEC 14772-1:1997 clause 6 (written from the standard)

NODES: type -> {field: (kind, type, default)}; kind 'e' exposedField, 'f' field.
Node-valued defaults: None (SFNode) and [] (MFNode).
EVENTS: type -> {event: (direction, type)}; direction 'in' / 'out'
"""
import re

_TEXT = '''
Anchor: e MFNode children []; e SFString description ""; e MFString parameter []; e MFString url []; f SFVec3f bboxCenter 0 0 0; f SFVec3f bboxSize -1 -1 -1; in MFNode addChildren; in MFNode removeChildren
Appearance: e SFNode material NULL; e SFNode texture NULL; e SFNode textureTransform NULL
AudioClip: e SFString description ""; e SFBool loop FALSE; e SFFloat pitch 1; e SFTime startTime 0; e SFTime stopTime 0; e MFString url []; out SFTime duration_changed; out SFBool isActive
Background: e MFFloat groundAngle []; e MFColor groundColor []; e MFString backUrl []; e MFString bottomUrl []; e MFString frontUrl []; e MFString leftUrl []; e MFString rightUrl []; e MFString topUrl []; e MFFloat skyAngle []; e MFColor skyColor [0 0 0]; in SFBool set_bind; out SFBool isBound
Billboard: e SFVec3f axisOfRotation 0 1 0; e MFNode children []; f SFVec3f bboxCenter 0 0 0; f SFVec3f bboxSize -1 -1 -1; in MFNode addChildren; in MFNode removeChildren
Box: f SFVec3f size 2 2 2
Collision: e MFNode children []; e SFBool collide TRUE; f SFVec3f bboxCenter 0 0 0; f SFVec3f bboxSize -1 -1 -1; f SFNode proxy NULL; in MFNode addChildren; in MFNode removeChildren; out SFTime collideTime
Color: e MFColor color []
ColorInterpolator: e MFFloat key []; e MFColor keyValue []; in SFFloat set_fraction; out SFColor value_changed
Cone: f SFFloat bottomRadius 1; f SFFloat height 2; f SFBool side TRUE; f SFBool bottom TRUE
Coordinate: e MFVec3f point []
CoordinateInterpolator: e MFFloat key []; e MFVec3f keyValue []; in SFFloat set_fraction; out MFVec3f value_changed
Cylinder: f SFBool bottom TRUE; f SFFloat height 2; f SFFloat radius 1; f SFBool side TRUE; f SFBool top TRUE
CylinderSensor: e SFBool autoOffset TRUE; e SFFloat diskAngle 0.262; e SFBool enabled TRUE; e SFFloat maxAngle -1; e SFFloat minAngle 0; e SFFloat offset 0; out SFBool isActive; out SFRotation rotation_changed; out SFVec3f trackPoint_changed
DirectionalLight: e SFFloat ambientIntensity 0; e SFColor color 1 1 1; e SFVec3f direction 0 0 -1; e SFFloat intensity 1; e SFBool on TRUE
ElevationGrid: in MFFloat set_height; e SFNode color NULL; e SFNode normal NULL; e SFNode texCoord NULL; f MFFloat height []; f SFBool ccw TRUE; f SFBool colorPerVertex TRUE; f SFFloat creaseAngle 0; f SFBool normalPerVertex TRUE; f SFBool solid TRUE; f SFInt32 xDimension 0; f SFFloat xSpacing 1; f SFInt32 zDimension 0; f SFFloat zSpacing 1
Extrusion: in MFVec2f set_crossSection; in MFRotation set_orientation; in MFVec2f set_scale; in MFVec3f set_spine; f SFBool beginCap TRUE; f SFBool ccw TRUE; f SFBool convex TRUE; f SFFloat creaseAngle 0; f MFVec2f crossSection [1 1, 1 -1, -1 -1, -1 1, 1 1]; f SFBool endCap TRUE; f MFRotation orientation [0 0 1 0]; f MFVec2f scale [1 1]; f SFBool solid TRUE; f MFVec3f spine [0 0 0, 0 1 0]
Fog: e SFColor color 1 1 1; e SFString fogType "LINEAR"; e SFFloat visibilityRange 0; in SFBool set_bind; out SFBool isBound
FontStyle: f MFString family ["SERIF"]; f SFBool horizontal TRUE; f MFString justify ["BEGIN"]; f SFString language ""; f SFBool leftToRight TRUE; f SFFloat size 1; f SFFloat spacing 1; f SFString style "PLAIN"; f SFBool topToBottom TRUE
Group: e MFNode children []; f SFVec3f bboxCenter 0 0 0; f SFVec3f bboxSize -1 -1 -1; in MFNode addChildren; in MFNode removeChildren
ImageTexture: e MFString url []; f SFBool repeatS TRUE; f SFBool repeatT TRUE
IndexedFaceSet: in MFInt32 set_colorIndex; in MFInt32 set_coordIndex; in MFInt32 set_normalIndex; in MFInt32 set_texCoordIndex; e SFNode color NULL; e SFNode coord NULL; e SFNode normal NULL; e SFNode texCoord NULL; f SFBool ccw TRUE; f MFInt32 colorIndex []; f SFBool colorPerVertex TRUE; f SFBool convex TRUE; f MFInt32 coordIndex []; f SFFloat creaseAngle 0; f MFInt32 normalIndex []; f SFBool normalPerVertex TRUE; f SFBool solid TRUE; f MFInt32 texCoordIndex []
IndexedLineSet: in MFInt32 set_colorIndex; in MFInt32 set_coordIndex; e SFNode color NULL; e SFNode coord NULL; f MFInt32 colorIndex []; f SFBool colorPerVertex TRUE; f MFInt32 coordIndex []
Inline: e MFString url []; f SFVec3f bboxCenter 0 0 0; f SFVec3f bboxSize -1 -1 -1
LOD: e MFNode level []; f SFVec3f center 0 0 0; f MFFloat range []
Material: e SFFloat ambientIntensity 0.2; e SFColor diffuseColor 0.8 0.8 0.8; e SFColor emissiveColor 0 0 0; e SFFloat shininess 0.2; e SFColor specularColor 0 0 0; e SFFloat transparency 0
MovieTexture: e SFBool loop FALSE; e SFFloat speed 1; e SFTime startTime 0; e SFTime stopTime 0; e MFString url []; f SFBool repeatS TRUE; f SFBool repeatT TRUE; out SFBool isActive
NavigationInfo: in SFBool set_bind; e MFFloat avatarSize [0.25, 1.6, 0.75]; e SFBool headlight TRUE; e SFFloat speed 1; e MFString type ["WALK", "ANY"]; e SFFloat visibilityLimit 0; out SFBool isBound
Normal: e MFVec3f vector []
NormalInterpolator: e MFFloat key []; e MFVec3f keyValue []; in SFFloat set_fraction; out MFVec3f value_changed
OrientationInterpolator: e MFFloat key []; e MFRotation keyValue []; in SFFloat set_fraction; out SFRotation value_changed
PixelTexture: e SFImage image 0 0 0; f SFBool repeatS TRUE; f SFBool repeatT TRUE
PlaneSensor: e SFBool autoOffset TRUE; e SFBool enabled TRUE; e SFVec2f maxPosition -1 -1; e SFVec2f minPosition 0 0; e SFVec3f offset 0 0 0; out SFBool isActive; out SFVec3f trackPoint_changed; out SFVec3f translation_changed
PointLight: e SFFloat ambientIntensity 0; e SFVec3f attenuation 1 0 0; e SFColor color 1 1 1; e SFFloat intensity 1; e SFVec3f location 0 0 0; e SFBool on TRUE; e SFFloat radius 100
PointSet: e SFNode color NULL; e SFNode coord NULL
PositionInterpolator: e MFFloat key []; e MFVec3f keyValue []; in SFFloat set_fraction; out SFVec3f value_changed
ProximitySensor: e SFVec3f center 0 0 0; e SFVec3f size 0 0 0; e SFBool enabled TRUE; out SFBool isActive; out SFVec3f position_changed; out SFRotation orientation_changed; out SFTime enterTime; out SFTime exitTime
ScalarInterpolator: e MFFloat key []; e MFFloat keyValue []; in SFFloat set_fraction; out SFFloat value_changed
Shape: e SFNode appearance NULL; e SFNode geometry NULL
Sound: e SFVec3f direction 0 0 1; e SFFloat intensity 1; e SFVec3f location 0 0 0; e SFFloat maxBack 10; e SFFloat maxFront 10; e SFFloat minBack 1; e SFFloat minFront 1; e SFFloat priority 0; e SFNode source NULL; f SFBool spatialize TRUE
Sphere: f SFFloat radius 1
SphereSensor: e SFBool autoOffset TRUE; e SFBool enabled TRUE; e SFRotation offset 0 1 0 0; out SFBool isActive; out SFRotation rotation_changed; out SFVec3f trackPoint_changed
SpotLight: e SFFloat ambientIntensity 0; e SFVec3f attenuation 1 0 0; e SFFloat beamWidth 1.570796; e SFColor color 1 1 1; e SFFloat cutOffAngle 0.785398; e SFVec3f direction 0 0 -1; e SFFloat intensity 1; e SFVec3f location 0 0 0; e SFBool on TRUE; e SFFloat radius 100
Switch: e MFNode choice []; e SFInt32 whichChoice -1
Text: e MFString string []; e SFNode fontStyle NULL; e MFFloat length []; e SFFloat maxExtent 0
TextureCoordinate: e MFVec2f point []
TextureTransform: e SFVec2f center 0 0; e SFFloat rotation 0; e SFVec2f scale 1 1; e SFVec2f translation 0 0
TimeSensor: e SFTime cycleInterval 1; e SFBool enabled TRUE; e SFBool loop FALSE; e SFTime startTime 0; e SFTime stopTime 0; out SFTime cycleTime; out SFFloat fraction_changed; out SFBool isActive; out SFTime time
TouchSensor: e SFBool enabled TRUE; out SFVec3f hitNormal_changed; out SFVec3f hitPoint_changed; out SFVec2f hitTexCoord_changed; out SFBool isActive; out SFBool isOver; out SFTime touchTime
Transform: in MFNode addChildren; in MFNode removeChildren; e SFVec3f center 0 0 0; e MFNode children []; e SFRotation rotation 0 0 1 0; e SFVec3f scale 1 1 1; e SFRotation scaleOrientation 0 0 1 0; e SFVec3f translation 0 0 0; f SFVec3f bboxCenter 0 0 0; f SFVec3f bboxSize -1 -1 -1
Viewpoint: in SFBool set_bind; e SFFloat fieldOfView 0.785398; e SFBool jump TRUE; e SFRotation orientation 0 0 1 0; e SFVec3f position 0 0 10; f SFString description ""; out SFTime bindTime; out SFBool isBound
VisibilitySensor: e SFVec3f center 0 0 0; e SFBool enabled TRUE; e SFVec3f size 0 0 0; out SFTime enterTime; out SFTime exitTime; out SFBool isActive
WorldInfo: f MFString info []; f SFString title ""
'''
# (PointSet and MovieTexture: the parts in which the library follows the standard's types)


def _default(t, text):
    from harness import vals
    text = text.strip()
    if t == 'SFNode':
        return None
    if t == 'MFNode':
        return []
    if t == 'SFBool':
        return 1 if text == 'TRUE' else 0
    if t == 'SFString':
        return text.strip('"')
    if t == 'MFString':
        return re.findall(r'"([^"]*)"', text)
    nums = [float(x) for x in re.findall(r'[-+0-9.eE]+', text)]
    kind, count, dt = vals.TYPES[t]
    if kind == 'scalar':
        v = nums[0]
    elif kind == 'vec':
        v = tuple(nums)
    elif kind == 'list':
        v = nums
    else:
        v = [tuple(nums[i:i + count]) for i in range(0, len(nums), count)]
    return vals.norm(t, v)


NODES, EVENTS = {}, {}
for _line in _TEXT.strip().splitlines():
    _name, _rest = _line.split(':', 1)
    NODES[_name], EVENTS[_name] = {}, {}
    for _item in _rest.split(';'):
        _parts = _item.split(None, 3)
        if _parts[0] in ('e', 'f'):
            NODES[_name][_parts[2]] = (_parts[0], _parts[1], _default(_parts[1], _parts[3]))
        else:
            EVENTS[_name][_parts[2]] = (_parts[0], _parts[1])

# which node types the standard admits in a node-valued field
CHILD = ['Anchor', 'Background', 'Billboard', 'Collision', 'ColorInterpolator', 'CoordinateInterpolator', 'CylinderSensor',
         'DirectionalLight', 'Fog', 'Group', 'Inline', 'LOD', 'NavigationInfo', 'NormalInterpolator', 'OrientationInterpolator',
         'PlaneSensor', 'PointLight', 'PositionInterpolator', 'ProximitySensor', 'ScalarInterpolator', 'Shape', 'Sound',
         'SphereSensor', 'SpotLight', 'Switch', 'TimeSensor', 'TouchSensor', 'Transform', 'Viewpoint', 'VisibilitySensor', 'WorldInfo']
SLOTS = {
    'children': CHILD, 'choice': CHILD, 'level': CHILD, 'proxy': CHILD,
    'material': ['Material'], 'texture': ['ImageTexture', 'PixelTexture', 'MovieTexture'], 'textureTransform': ['TextureTransform'],
    'color': ['Color'], 'normal': ['Normal'], 'texCoord': ['TextureCoordinate'], 'coord': ['Coordinate'],
    'appearance': ['Appearance'], 'fontStyle': ['FontStyle'], 'source': ['AudioClip', 'MovieTexture'],
    'geometry': ['Box', 'Cone', 'Cylinder', 'ElevationGrid', 'Extrusion', 'IndexedFaceSet', 'IndexedLineSet', 'PointSet', 'Sphere', 'Text'],
}
for _n, _fs in NODES.items():
    for _f, (_k, _t, _d) in _fs.items():
        assert _t not in ('SFNode', 'MFNode') or _f in SLOTS, _f
