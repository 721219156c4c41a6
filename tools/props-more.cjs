'use strict';
const { P } = require('./props.cjs');
const c = p => 'packages/vgrammar-core/src/' + p;
const pk = (p, f) => `packages/${p}/src/${f}`;
const prop = (id, title, statement, over, text, why, files, mechanism, observe_at, technique, level_note) =>
  P.push({ id, title, statement, over, text, why, files, mechanism: mechanism.map(([name, where]) => ({ name, where })), observe_at, technique, level_note });

prop('C02', 'Change propagation is consistent, minimal and complete',
  'When a run evaluates user formulas, encoders and transforms, every one of them reads the final values of everything it declared as a dependency, each signal formula is evaluated at most once, and whatever depends on something that changed is re-evaluated before the run ends. A run with nothing changed evaluates nothing and changes no graphic.',
  ['histories', 'configurations'], 'all dependency graphs x all sequences of changes and runs',
  'Tests never build a dependency graph deeper than one edge; glitches need diamonds and re-ranking after edits.',
  [c('view/dataflow.ts'), c('util/grammar-heap.ts'), c('util/unique-list.ts'), c('view/grammar-base.ts')],
  [['rank heap', c('util/grammar-heap.ts')], ['propagation to targets', c('view/dataflow.ts')]],
  ['user callbacks', 'grammar outputs'], 'online trace monitor over callback invocations (inputs, order, counts)', 'random graphs; monitors sit in the user callbacks themselves');

prop('C03', 'Data joins: one element per key, identity kept, nothing lost',
  'After every run a mark has exactly one element per distinct key (per group for collection marks), in data or sort order, holding exactly the data of that key; an element whose key persists keeps its identity across runs, new keys enter, vanished keys exit, and keys that come back revive or re-enter correctly.',
  ['histories', 'inputs'], 'all data sets, key and group definitions x all sequences of data changes',
  'Tests check single joins of a few rows; identity, order and revival only show over histories.',
  [c('view/mark.ts'), c('graph/mark/differ.ts'), c('graph/element.ts'), c('view/group.ts')],
  [['keyed differ', c('graph/mark/differ.ts')], ['join evaluation', c('view/mark.ts')]],
  ['mark elements', 'scene graph children'], 'online monitor of element identity against a reference join', 'random keyed/grouped data histories against a reference join written from the documentation');

prop('C04', 'Encodings put exactly the declared values on the graphics',
  'After a run each element shows, for every encoded channel, the value its encoder denotes for its datum: constants, fields (including nested and band/offset forms), scaled fields and values, signals and callbacks; enter encodings apply only when the element enters or re-enters, and the last declared encoding of a channel wins. Shorthand geometry channels (extents, widths, centres, point lists of lines and areas) are resolved to the same shape the equivalent explicit channels give.',
  ['inputs', 'configurations'], 'all mark types x encoder forms x data',
  'Tests check a few encoders on hand-made elements, not the pipeline from data to graphics.',
  [c('graph/mark/encode.ts'), c('graph/attributes/transform.ts'), c('graph/attributes/line.ts'), c('graph/attributes/common.ts'), c('graph/element.ts')],
  [['encoder invocation', c('graph/mark/encode.ts')], ['attribute transforms', c('graph/attributes/transform.ts')]],
  ['graphic attributes'], 'reference interpreter of encodings compared with graphics after real runs', 'random encodings over every mark type');

prop('C05', 'Element states overlay and restore attributes exactly',
  'Under any sequence of adding, removing, replacing and clearing states, re-runs and data changes, the graphic attributes equal the base encoding overlaid with the encodings of the active states in their effective order, and removing all states restores exactly the attributes the element would have had without them.',
  ['histories', 'inputs'], 'all state encodings x all state/update sequences',
  'Tests toggle one state once on a static element.',
  [c('graph/element.ts'), c('view/mark.ts'), c('graph/glyph-element.ts')],
  [['state overlay', c('graph/element.ts')]], ['graphic attributes', 'active states'],
  'online monitor: state machine model replayed beside the live element', 'random state operation histories on plain, collection and glyph marks');

prop('C06', 'Removal and release leave nothing behind, views are independent',
  'Removing a grammar, replacing the specification or releasing a view removes every element, graphic, listener, timer, dependency edge and registry entry it owned, and nothing of what remains changes. Two views never influence one another, and work scheduled before a release never runs against the released view.',
  ['histories', 'schedules'], 'all creation/removal/release histories, including releases between frames',
  'Tests create a single view and rarely release it.',
  [c('view/View.ts'), c('view/grammar-record.ts'), c('view/grammar-base.ts'), c('view/mark.ts'), c('graph/canvas-renderer.ts')],
  [['release cascade', c('view/View.ts')], ['grammar record', c('view/grammar-record.ts')]], ['registries', 'global and stage listeners', 'pending timers', 'scene graph'],
  'leak monitor: interposed listeners/timers and a registry audit after random lifecycles', 'interposition on timers, window listeners and stage');

prop('C07', 'Event listeners fire exactly when their selector matches',
  'A declared listener fires once for each dispatched event matching its selector (event type, mark type, id, name or window source) and filter, with the element the event happened on and the current values of its dependencies; it updates its target signals with the callback value together with everything depending on them, and never fires for other events or after being removed. Handlers added on the view or a mark see exactly the events on it. Throttled, debounced, between and merged listeners follow their timing contract; consuming stops the propagation of matching events only.',
  ['histories', 'schedules', 'configurations'], 'all event specifications x all event histories and timings',
  'Tests use mocked views without propagation or time.',
  [c('view/view-event-mixin.ts'), c('view/events.ts'), c('parse/event.ts'), c('graph/util/events-extend.ts'), c('view/View.ts')],
  [['selector parsing', c('parse/event.ts')], ['delegation', c('view/events.ts')]], ['listener invocations', 'signal values'],
  'online trace checker of listener invocations against a reference selector matcher under a virtual clock', 'random selectors and event streams propagated through the real scene graph');

prop('C08', 'State interactions track the pointer and undo themselves',
  'For hover, select, active, highlight and brush interactions (on elements, by key, group, name or graphic name), after every event exactly the elements the interaction contract names carry its states: at most one selection survives in single mode, reset triggers and timeouts clear what was set, and a removed interaction no longer reacts. Start and reset notifications of selections and highlights, and the start, update, end and clear notifications of brushes with the elements they contain, match these changes.',
  ['histories', 'configurations'], 'all interaction configurations x all event histories and data changes',
  'Tests call handlers on mocks for one event.',
  [c('interactions/element-select.ts'), c('interactions/element-highlight.ts'), c('interactions/element-active.ts'), c('interactions/toggle-state-mixin.ts'), c('interactions/element-highlight-by-group.ts'), c('interactions/base.ts')],
  [['state toggling', c('interactions/toggle-state-mixin.ts')]], ['element states', 'interaction events'],
  'online monitor: reference interaction automaton stepped with the same events', 'random event streams through the real scene graph');

prop('C09', 'Filtering interactions show exactly the selected data',
  'After every change of a bound legend, slider, data-zoom or scroll-bar control, and after later data updates, its target data and the marks showing it have exactly the rows the control selects, in original order, and several controls on one data set intersect; a player shows the rows of its current frame. A brush filter and a drill-down show the rows brushed or clicked in another mark (the clicked ones also in their own), and roll-up shows its transform of the clicked rows until it is toggled or reset. Clearing the brush, resetting or unbinding the control restores all rows.',
  ['histories', 'configurations'], 'all control configurations x sequences of control changes, data updates, bindings and removals',
  'No test drives a control against data.',
  [c('interactions/filter.ts'), c('interactions/legend-filter.ts'), c('interactions/slider-filter.ts'), c('interactions/datazoom-filter.ts'), c('interactions/scrollbar-filter.ts'), c('interactions/player-filter.ts'), c('interactions/brush-filter.ts'), c('interactions/drill-down.ts'), c('interactions/roll-up.ts'), c('view/data.ts')],
  [['data filters', c('interactions/filter.ts')]], ['data output', 'mark elements', 'selection shown by legends'],
  'online monitor: reference row filter compared with live data after every control change', 'real component events on real views');

prop('C10', 'Scroll, zoom, drag and fisheye keep ranges valid and reversible',
  'Drag, scroll, zoom and roam gestures move or resize the visible range of every enabled direction by the distance, ratio, rate and direction declared, inside the whole range, at once or when the gesture ends, as often as the throttle allows and only while the gesture lasts. The positions or filtered rows, the linked data zoom or scroll bar and the announced ranges all agree with it, a reset shows the whole range again and unbinding leaves marks and rows as if nothing had been navigated. A fisheye magnifies positions around the pointer by its declared radius and distortion, keeps their order and everything outside the radius, and leaves nothing behind when the pointer leaves, on a reset or after unbinding.',
  ['histories', 'configurations'], 'all navigation configurations x gesture sequences',
  'Tests do not exercise gestures.',
  [c('interactions/view-navigation-base.ts'), c('interactions/view-roam.ts'), c('interactions/view-drag.ts'), c('interactions/view-scroll.ts'), c('interactions/view-zoom.ts'), c('interactions/view-utils.ts'), c('interactions/view-scroll-mixin.ts'), c('interactions/view-zoom-mixin.ts'), c('interactions/view-drag-mixin.ts'), c('interactions/fish-eye.ts')],
  [['range arithmetic', c('interactions/view-zoom-mixin.ts')], ['gesture state', c('interactions/view-roam.ts')]], ['scale ranges', 'mark positions', 'filtered rows', 'linked components', 'emitted events'],
  'a model of the visible ranges is advanced by the same gestures and compared with positions, rows, linked components and notifications after every event; fisheye positions against the closed formula', 'random gestures with real events under a virtual clock, several interactions at once, throttled bursts, interruptions, unbinding and rebinding');

prop('C11', 'Animations follow their timeline, end in the encoded state and balance events',
  'Every element follows its declared timeline (start time, slices, delays, durations, easing, loops, total time, one-by-one order, partition, arrangement) at each frame, and every start notification has exactly one matching end at the declared time. However frames fall and however animations are stopped, paused, resumed, re-run, reconfigured or overtaken by new data, once time has passed every element shows the attributes it has without animation, exited elements and their graphics are gone, and nothing counts as animating.',
  ['schedules', 'histories', 'configurations'], 'all animation configurations x frame timings x interruptions',
  'Tests check single tweens with mocked timelines.',
  [c('graph/animation/animate.ts'), c('graph/animation/animator.ts'), c('graph/animation/arranger.ts'), c('graph/animation/attribute.ts'), c('view/animate.ts'), c('graph/animation/config.ts'), c('graph/element.ts')],
  [['animation scheduling', c('graph/animation/animate.ts')], ['arranger', c('graph/animation/arranger.ts')]], ['graphic attributes per frame', 'animation notifications'],
  'online trace monitor over frames of a hand-driven ticker', 'random frame steps, interruptions and re-runs, virtual clock');

prop('C12', 'Reuse and morphing reach the same final scene',
  'Replacing a specification, or single marks of it, with reuse or morphing on or off and at any moment of an earlier transition ends, once the transitions are over, in the scene, scales, coordinates, data and signals of a fresh view of the new specification, with no graphics of the old one left. With reuse, elements of a mark of the same name, type and grouping whose key is kept keep their graphics. Morph transitions last as long as their delay, duration and one-by-one options say, and the animations of the marks play again afterwards.',
  ['histories', 'schedules', 'configurations'], 'all pairs of specifications x reuse/morph options x frame timings',
  'No test runs a full morph.',
  [c('graph/animation/morph.ts'), c('graph/view-diff.ts'), c('view/View.ts'), c('view/view-morph-mixin.ts')],
  [['view diff', c('graph/view-diff.ts')], ['morph', c('graph/animation/morph.ts')]], ['scene graph', 'graphic attributes'],
  'differential monitor: scene after transitions vs freshly built scene', 'random specification pairs under a hand-driven ticker');

prop('C13', 'Progressive rendering shows the same marks, a step per frame',
  'A mark rendered progressively shows, in every frame, exactly the next step of items of each of its groups, in data order, each once and drawn as without progressive rendering, until all are shown; word clouds laid out step by step end as those laid out at once. An update in the middle restarts the marks it concerns, leaves the others going on, and crossing the threshold either way, removal or release leaves no old graphics and no further work. Ordinary and animated marks beside progressive ones are drawn as always.',
  ['schedules', 'inputs', 'histories'], 'all data sizes, groupings, steps, thresholds and moments of update',
  'Tests never run a mark in progressive mode; each frame continues state left by the former one, and any run of the view can fall between two frames.',
  [c('view/mark.ts'), c('view/View.ts'), c('view/animate.ts'), c('graph/element.ts'), 'packages/vgrammar-wordcloud/src/base.ts'],
  [['progressive context', c('view/mark.ts')], ['frame loop', c('view/View.ts')]], ['mark elements', 'graphics drawn', 'isDoingProgressive'],
  'per-frame differential monitor on a virtual frame clock against a fresh view rendering at once', 'random sizes, groups, steps, thresholds, mark types and interrupting operations');

prop('C14', 'Layout gives every child the room its container declares',
  'A grid gives each laid-out child the cells between the lines it declares, from tracks that are fixed, in per cent or share what the gaps leave; a relative container docks children around the content with their size, padding, limits, order and alignment, leaves the rest to the content and, where asked for, to the size and padding of the view; a customised layout is called once for each container, outermost first, with its laid-out children and bounds. Marks that are encoded with the bounds they were given are drawn there in the same run. Each layout that is requested takes later changes of sizes, layout options and children into account, a run that does not request one lays out nothing, and laying out again with nothing changed moves nothing.',
  ['configurations', 'inputs'], 'all layout configurations, container sizes and edits between layouts',
  'Tests cover hand-picked layouts of one run.',
  [c('graph/layout/grid.ts'), c('graph/layout/relative.ts'), c('graph/layout/layout.ts'), c('view/View.ts'), c('view/group.ts')],
  [['grid tracks', c('graph/layout/grid.ts')], ['docking', c('graph/layout/relative.ts')], ['layout tree', c('view/View.ts')]], ['layout bounds', 'relative positions', 'view signals', 'attributes'],
  'reference layout model compared with layout bounds, view signals and drawn attributes after every layout', 'random containers, children and edit histories');

prop('C15', 'Scales are configured exactly as declared',
  'For every scale type, domain source (literal, field, several fields or data sets, signal), range source (literal, coordinate, data) and configuration, the evaluated scale maps the data the way the declared options say: extents cover the data, zero/min/max/nice/padding/clamp/reverse options hold, and position scales span their coordinate axis.',
  ['inputs', 'configurations'], 'all scale declarations x data',
  'Tests check a few scale types with fixed numbers.',
  [c('parse/scale.ts'), c('view/scale.ts'), c('util/scale.ts')],
  [['scale configuration', c('parse/scale.ts')]], ['scale outputs'], 'reference model of the declared scale compared with the live scale', 'random declarations');

prop('C16', 'Data transforms compute their definition and spare their input',
  'Every built-in data transform (filter, map, sort, fold, unfold, range, bin, join, pick, funnel, pie, circular relation, stack, sampling, kernel density, contour, identifier) returns exactly what its definition prescribes for any table of finite values, including empty tables, missing fields, duplicate, zero and negative values. No transform alters the fields or the order of the rows it was given, apart from writing the output field that join, map and identifier are asked to annotate.',
  ['inputs', 'configurations'], 'all row sets and options',
  'Unit tests use one or two fixed tables per transform.',
  [c('transforms/data/bin.ts'), c('transforms/data/stack.ts'), c('transforms/data/sampling.ts'), c('transforms/data/pie.ts'), c('transforms/data/fold.ts'), c('transforms/data/join.ts'), c('transforms/data/funnel.ts'), c('transforms/index.ts')],
  [['transform implementations', c('transforms/index.ts')]], ['transform outputs', 'input rows before and after'], 'reference implementations and algebraic oracles over recorded inputs and outputs', 'random and adversarial tables');

prop('C17', 'Mark transforms keep marks valid and non-overlapping',
  'Dodged items of a category share its band side by side, centred, with the declared gaps and width limits; jitter spreads items within the declared part of the band (or the extent of the items) as its random function says; symmetry centres all items on one line without resizing them. Overlap removal hides a symbol exactly when it is closer to the symbol shown before it (in its direction and group) than their radii and the declared distance allow, after every change of data, scales or options.',
  ['inputs', 'configurations'], 'all element sets and options',
  'Tests check a handful of items.',
  [c('transforms/mark/dodge.ts'), c('transforms/mark/jitter.ts'), c('transforms/mark/mark-overlap.ts'), c('transforms/mark/symmetry.ts')],
  [['transforms', c('transforms/mark/dodge.ts')]], ['element attributes'], 'geometric invariant monitors on transformed elements', 'random element sets');

prop('C18', 'Coordinates convert points reversibly and consistently',
  'Cartesian and polar coordinates convert points to the canvas and back to the same point for any origin, start, end and chain of translate, rotate, scale and transpose transforms; ranges, bandwidths and axis positions they hand to scales and axes agree with the conversion.',
  ['inputs', 'configurations', 'histories'], 'all coordinate configurations x points x configuration sequences',
  'Tests convert a few points with default settings.',
  [pk('vgrammar-coordinate', 'cartesian.ts'), pk('vgrammar-coordinate', 'polar.ts'), pk('vgrammar-coordinate', 'base.ts'), c('parse/coordinate.ts')],
  [['point conversion', pk('vgrammar-coordinate', 'base.ts')]], ['converted points', 'ranges'], 'round-trip and reference-geometry oracles', 'random configurations');

prop('C19', 'Hierarchy layouts tile and nest correctly',
  'Treemap, sunburst, circle packing and tree layouts output every node of the input once with correct depth, parent links and values; children stay inside their parents, tile areas and sector angles are proportional to values, siblings do not overlap, and the input is left untouched.',
  ['inputs', 'configurations'], 'all trees x options',
  'Tests check one fixed tree per layout.',
  [pk('vgrammar-hierarchy', 'treemap/layout.ts'), pk('vgrammar-hierarchy', 'sunburst/layout.ts'), pk('vgrammar-hierarchy', 'circle-packing/layout.ts'), pk('vgrammar-hierarchy', 'tree/layout.ts')],
  [['layouts', pk('vgrammar-hierarchy', 'treemap/layout.ts')]], ['layout output'], 'geometric oracles over layout outputs', 'random trees');

prop('C20', 'Sankey layout conserves flow',
  'For any acyclic link list the layout places every node and link once, node values equal the larger of in- and out-flow, layers increase along links, nodes stay in the box and do not overlap in their layer, and the links at each node side are stacked without gaps or overlap.',
  ['inputs', 'configurations'], 'all flow graphs x options',
  'Tests check fixed graphs.',
  [pk('vgrammar-sankey', 'layout.ts'), pk('vgrammar-sankey', 'transform.ts')],
  [['layout', pk('vgrammar-sankey', 'layout.ts')]], ['layout output'], 'conservation and geometry oracles', 'random flow graphs');

prop('C21', 'Word clouds place words disjointly inside the shape',
  'Word cloud layouts place each word at most once, drawn inside the requested canvas or shape and without being drawn over any other placed word, with its own font, size and angle. The same input always gives the same result, at once or in steps, and the layout always comes to an end.',
  ['inputs', 'configurations'], 'all word lists x shapes x options',
  'Tests only check that layouts return.',
  [pk('vgrammar-wordcloud', 'cloud-layout.ts'), pk('vgrammar-wordcloud', 'fast-layout.ts'), pk('vgrammar-wordcloud', 'grid-layout.ts'), pk('vgrammar-wordcloud-shape', 'wordle.ts')],
  [['placement', pk('vgrammar-wordcloud', 'cloud-layout.ts')]], ['placed words'], 'overlap monitor on rasterised placements', 'random word lists');

prop('C22', 'Venn layouts realise the declared sets',
  'Venn layouts give each set a circle whose area follows its size, draw for each overlap exactly the region the circles share, and keep everything in the viewport with labels on their own area. For up to three sets that circles can realise, declared overlaps, containment and disjointness are reproduced.',
  ['inputs', 'configurations'], 'all set systems of the supported size',
  'Tests check fixed set systems.',
  [pk('vgrammar-venn', 'venn.ts')],
  [['layout', pk('vgrammar-venn', 'venn.ts')]], ['layout output'], 'geometric oracles', 'random set systems');

prop('C23', 'Projections map geography consistently',
  'Projected points lie where the configured projection says, inversion returns the original coordinates, fitted features lie inside the requested extent, and projected paths follow the projected points.',
  ['inputs', 'configurations', 'histories'], 'all projection types, options and features',
  'Tests check creation only.',
  [pk('vgrammar-projection', 'projection.ts')],
  [['projection', pk('vgrammar-projection', 'projection.ts')]], ['projected points'], 'round-trip oracles', 'random features');

prop('C24', 'Glyphs and semantic marks draw the shape their channels denote',
  'Box plots, bar box plots, violins, link and tree paths, ripple points, waves, glyphs registered by the user, and interval, cell and text marks draw every part at the positions and with the sizes their channel values denote, in both directions and in cartesian or polar coordinates. This holds after every change of data, signals, scales, direction and states (in their declared order) and at each frame of the growing and shrinking animations, and parts whose channel is not encoded are hidden.',
  ['inputs', 'configurations', 'histories'], 'all channel values, directions, edit and state histories',
  'Tests encode one element per glyph once, outside a view.',
  [c('glyph/boxplot.ts'), c('glyph/violin.ts'), c('glyph/link-path.ts'), c('glyph/tree-path.ts'), c('glyph/ripple.ts'), c('glyph/wave.ts'), c('graph/glyph-element.ts'), c('view/glyph.ts'), c('semantic-marks/interval.ts'), c('semantic-marks/cell.ts'), c('semantic-marks/text.ts')],
  [['glyph encoders', c('glyph/boxplot.ts')], ['part attributes', c('graph/glyph-element.ts')]], ['part graphics of glyph elements', 'graphic attributes'],
  'runtime monitor: reference geometry derived from channel values, compared with the drawn parts after every step', 'random glyphs, directions, edits, states and animation frames on live views');

prop('C25', 'Components mirror the scales and data they are linked to',
  'After any change of data, signals, scales, coordinates, theme, encoders or options, every axis, grid, legend, label, title, slider, data zoom and scrollbar is drawn exactly as in a new view of the current declaration. Axes and grids show the ticks of their scale at the positions where marks of those values are drawn, grids lie on the axis they target, legends show one item per value with the colour and shape of its marks or the bounds of a continuous scale, and labels show the text of each of their target elements. Titles, sliders, data zooms and scrollbars show the texts, bounds, preview rows and place they declare.',
  ['inputs', 'configurations', 'histories'], 'all component configurations x update histories',
  'Tests check the attributes generated once, for one configuration each.',
  [c('component/axis.ts'), c('component/grid.ts'), c('component/legend.ts'), c('component/label.ts'), c('component/title.ts'), c('component/slider.ts'), c('component/datazoom.ts'), c('component/scrollbar.ts'), c('view/component.ts'), c('component/scale.ts')],
  [['component encoders', c('component/axis.ts')], ['component joins', c('view/component.ts')]], ['component attributes and graphic trees'],
  'runtime monitor: differential against a fresh view plus a reference of what each component has to show, after every step', 'random components, options, themes and edit histories on live views');

prop('C26', 'Charts of the chart-level API show what they describe',
  'A chart declared through the chart-level API (bars, lines, areas, symbols, texts, rules, rectangles, cells, images, polygons and paths over shared or own rows, grouped and colored, in or outside a coordinate, with axes, grids, legends, labels, sliders, zooms and titles) has one element per row (one line or area per group) at the place its scales give, with the color of its group in the palette of its theme, scales covering the values of all marks that use them, and one component per declared one. Clicking a legend hides the rows of the unselected values and clicking again restores them. After every change of rows, channels, scales, styles, components, size, theme, coordinate or the whole declaration, and whether it was built by calls or from one declaration, the chart equals a fresh chart of the current description.',
  ['inputs', 'configurations', 'histories'], 'all plot declarations x data x edit histories, declared by calls or by a specification',
  'The plot test suite cannot run here (its canvas binding is missing) and compares a few generated specifications; it never runs a chart twice.',
  [pk('vgrammar-plot', 'plot.ts'), pk('vgrammar-plot', 'semantic-mark.ts'), pk('vgrammar-plot', 'interval.ts')],
  [['spec generation and scale merging', pk('vgrammar-plot', 'plot.ts')], ['channels, scales, components of one mark', pk('vgrammar-plot', 'semantic-mark.ts')]], ['scene graph', 'scales', 'components'], 'reference chart model, and a fresh chart declared the other way', 'random plots with random edits');

prop('C27', 'Utility functions satisfy their algebraic definitions',
  'Field accessors, comparators, extents, percentages, view boxes, linear regressions and polar shape outlines satisfy their definitions for every input: accessors follow any valid path, comparators give a consistent total preorder, and results agree with a direct computation.',
  ['inputs'], 'all inputs',
  'Tests check single values.',
  [pk('vgrammar-util', 'index.ts')],
  [['utilities', pk('vgrammar-util', 'index.ts')]], ['function results'], 'algebraic oracles on recorded calls', 'random inputs');
