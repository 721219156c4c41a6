// Everything the checks drive, taken from the TypeScript sources in /repo's working tree.
export * as full from '@visactor/vgrammar-full';
export * as util from '@visactor/vgrammar-util';
export * as coordinate from '@visactor/vgrammar-coordinate';
export * as hierarchy from '@visactor/vgrammar-hierarchy';
export * as plot from '@visactor/vgrammar-plot';
export * as projection from '@visactor/vgrammar-projection';
export * as sankey from '@visactor/vgrammar-sankey';
export * as venn from '@visactor/vgrammar-venn';
export * as wordcloud from '@visactor/vgrammar-wordcloud';
export * as wordcloudShape from '@visactor/vgrammar-wordcloud-shape';
export * as core from '@visactor/vgrammar-core';
export * as vrender from '@visactor/vrender-core';
export * as vscale from '@visactor/vscale';
